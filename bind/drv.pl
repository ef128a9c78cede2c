use strict;
use warnings;
Location::bootstrap("Location");
my %O;
sub unhex { return pack("H*", $_[0]) }
sub str { my $v = shift; return defined($v) ? "s:" . unpack("H*", $v) : "nil" }
sub num { my $v = shift; return defined($v) ? "i:$v" : "nil" }
# Handles have to be released explicitly unless they are objects
sub release { &Location::DESTROY($_[0]) if ref($_[0]) eq "SCALAR" }
sub bl { return $_[0] ? "b:1" : "b:0" }
my @F = map { "LOC_NETWORK_FLAG_$_" } qw(ANONYMOUS_PROXY SATELLITE_PROVIDER ANYCAST DROP);
my %ops = (
	open => sub { my $d = &Location::init($_[1]); release(delete $O{$_[0]}) if $O{$_[0]}; $O{$_[0]} = $d; return "ok" },
	meta => sub { my $d = $O{$_[0]}; return str(&Location::get_vendor($d)) . " " . str(&Location::get_description($d)) . " " . str(&Location::get_license($d)) },
	verify => sub { return bl(&Location::verify($O{$_[0]}, $_[1])) },
	cc => sub { return str(scalar &Location::lookup_country_code($O{$_[0]}, unhex($_[1]))) },
	asn => sub { return num(scalar &Location::lookup_asn($O{$_[0]}, unhex($_[1]))) },
	flag => sub { return bl(&Location::lookup_network_has_flag($O{$_[0]}, unhex($_[1]), $F[$_[2]] || "x")) },
	countries => sub { return join(" ", "list", map { str($_) } &Location::database_countries($O{$_[0]})) },
	cname => sub { return str(scalar &Location::get_country_name($O{$_[0]}, unhex($_[1]))) },
	cont => sub { return str(scalar &Location::get_continent_code($O{$_[0]}, unhex($_[1]))) },
	asname => sub { return str(scalar &Location::get_as_name($O{$_[0]}, $_[1])) },
	close => sub { release(delete $O{$_[0]}); return "ok" },
);
open(my $fh, "<", $ARGV[0]) or die;
my @lines = <$fh>;
close($fh);
chomp(@lines);
my $before = &Sim::live();
for my $l (@lines) {
	my ($idx, $spec, $rest) = split(/;/, $l, 3);
	my ($op, @a) = split(/ /, $rest);
	my ($res, $x);
	my $n = "";
	my $rep = $op eq "rep";
	$op = shift @a if $rep;
	my $f = $ops{$op};
	my $run = sub {
		&Sim::arm($spec);
		eval { $res = $f->(@a); 1 } or $res = "err";
		$x = &Sim::disarm();
	};
	if ($rep) {
		$n = 99;
		for (1 .. 3) {
			my $b = &Sim::blocks();
			$run->() for 1 .. 16;
			$b = &Sim::blocks() - $b;
			$n = $b if $b < $n;
		}
		$n .= " ";
	}
	$run->();
	&Sim::put("$idx $x $n$res");
}
for my $k (sort keys %O) { release(delete $O{$k}) }
&Sim::put("END $before | " . &Sim::live() . " | 0");
