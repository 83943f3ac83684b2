# A stand-in for JSON::MaybeXS, which is not installed here; it may use JSON::PP itself, too.
package JSON::MaybeXS;
use strict;
use warnings;
use JSON::PP ();
require Exporter;
our @ISA = ('JSON::PP');
our @EXPORT = qw(encode_json decode_json JSON);
our @EXPORT_OK = qw(is_bool to_json from_json);

sub import { goto &Exporter::import }
sub JSON { 'JSON::PP' }
sub encode_json { JSON::PP::encode_json($_[0]) }
sub decode_json { JSON::PP::decode_json($_[0]) }
sub true { JSON::PP::true() }
sub false { JSON::PP::false() }
sub is_bool { JSON::PP::is_bool($_[0]) }
sub to_json { JSON::PP->new->encode($_[0]) }
sub from_json { JSON::PP->new->decode($_[0]) }

sub new {
	my ($class, @o) = @_;
	my %o = @o == 1 ? %{$o[0]} : @o;
	my $self = JSON::PP->new;
	$self->$_($o{$_}) for sort keys %o;
	return $self;
}

1;
