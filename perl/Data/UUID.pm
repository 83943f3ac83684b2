# A stand-in for Data::UUID, which is not installed here.
package Data::UUID;
use strict;
use warnings;

sub new { return bless {}, shift }
sub create { return pack 'N4', map { int rand 2**32 } 1 .. 4 }
*create_bin = \&create;
sub to_string {
	my ($self, $u) = @_;
	my $h = uc unpack 'H*', $u;
	return join '-', unpack 'A8 A4 A4 A4 A12', $h;
}
sub to_hexstring { return '0x' . uc unpack 'H*', $_[1] }
sub create_str { my ($self) = @_; return $self->to_string($self->create) }
sub create_hex { my ($self) = @_; return $self->to_hexstring($self->create) }

1;
