# compares the boundaries on standard input (xval emit) with Perl's \b{...}
use utf8; use strict; use warnings; no warnings 'utf8';
my (%n, %bad);
my %re = (gcb => qr/\b{gcb}/, wb => qr/\b{wb}/, sb => qr/\b{sb}/, lb => qr/\b{lb}/);
while (<STDIN>) {
	chomp;
	my ($l, $r) = split /;/, $_, 2;
	my ($k, @c) = split ' ', $l;
	my $s = join '', map { chr hex } @c;
	my @w = split ' ', $r;
	my @g;
	while ($s =~ /$re{$k}/g) { push @g, pos $s if pos($s) > 0 && pos($s) < length $s; }
	$n{$k}++;
	if ("@g" ne "@w") { print "  DIFFERS $k @c: model @w, perl @g\n" if $bad{$k}++ < 12; }
}
printf "Perl $^V %s: %d strings, %d differ\n", $_, $n{$_}, $bad{$_} // 0 for sort keys %n;
