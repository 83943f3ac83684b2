# A stand-in for Getopt::Long::Descriptive, which is not installed here.
package Getopt::Long::Descriptive;
use strict;
use warnings;
use Getopt::Long ();
require Exporter;
our @ISA = ('Exporter');
our @EXPORT = ('describe_options');

sub describe_options {
	my ($format, @specs) = @_;
	my (%value, @long, $text);
	$text = "$format\n";
	for my $s (@specs) {
		next unless @$s;
		my ($spec, $about, $o) = @$s;
		$text .= "\t$spec\t" . (defined $about ? $about : '') . "\n";
		next unless defined $spec and $spec =~ /^([\w\-]+)/;
		(my $name = $1) =~ s/-/_/g;
		$value{$name} = $o->{default} if $o and exists $o->{default};
		push @long, $spec => sub { $value{$name} = $_[1] };
		$value{$name} = undef unless exists $value{$name};
	}
	my $usage = bless { text => $text }, 'Getopt::Long::Descriptive::Usage';
	my $p = Getopt::Long::Parser->new(config => ['bundling', 'no_auto_help', 'no_ignore_case']);
	$p->getoptions(@long) or die $usage->text;
	return (bless({%value}, 'Getopt::Long::Descriptive::Opts'), $usage);
}

package Getopt::Long::Descriptive::Opts;
our $AUTOLOAD;
sub AUTOLOAD {
	(my $name = $AUTOLOAD) =~ s/.*:://;
	return if $name eq 'DESTROY';
	die "no option $name\n" unless exists $_[0]{$name};
	return $_[0]{$name};
}

package Getopt::Long::Descriptive::Usage;
sub text { $_[0]{text} }
sub die { my $self = shift; CORE::die($self->{text}) }

1;
