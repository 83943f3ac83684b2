# A stand-in for XML::Twig, which is not installed here: a small XML reader with the handlers and
# the navigation methods of XML::Twig that scripts commonly use.
package XML::Twig;
use strict;
use warnings;

our $AUTOLOAD;

sub unknown {
	my ($what) = @_;
	print STDERR "STAND-IN: $what is not provided\n";
	exit 97;
}

sub AUTOLOAD {
	my $name = $AUTOLOAD;
	return if $name =~ /::DESTROY$/;
	unknown($name);
}

my %known_option = map { $_ => 1 } qw(twighandlers startttaghandlers twigroots keepspaces discardspaces
	prettyprint keepencoding outputencoding noexpand keepattsorder comments pi emptytags id);

sub new {
	my ($class, %o) = @_;
	my $self = bless { handlers => [] }, $class;
	for my $k (keys %o) {
		(my $n = lc $k) =~ s/_//g;
		unknown("option $k") unless $known_option{$n};
		$self->setTwigHandlers($o{$k}) if $n eq 'twighandlers';
		$self->{roots} = $o{$k} if $n eq 'twigroots';
	}
	if ($self->{roots}) {
		$self->setTwigHandlers({ map { ref $self->{roots}{$_} ? ($_ => $self->{roots}{$_}) : () } keys %{$self->{roots}} });
	}
	return $self;
}

sub setTwigHandlers {
	my ($self, $h) = @_;
	# the most specific first
	my @k = sort { ($b =~ tr{/}{}) <=> ($a =~ tr{/}{}) || $a cmp $b } keys %$h;
	push @{$self->{handlers}}, map { [$_, $h->{$_}] } @k;
}
*set_twig_handlers = \&setTwigHandlers;
sub setTwigHandler { my ($self, $k, $h) = @_; $self->setTwigHandlers({ $k => $h }) }

sub parsefile {
	my ($self, $file) = @_;
	open my $f, '<:raw', $file or die "Couldn't open $file:\n$!\n";
	local $/;
	my $bytes = <$f>;
	close $f;
	return $self->parse($bytes);
}

sub safe_parsefile { my ($self, $file) = @_; return eval { $self->parsefile($file) } }

my %entity = (lt => '<', gt => '>', amp => '&', quot => '"', apos => "'");

sub expand {
	my ($t) = @_;
	$t =~ s/&(?:#x([0-9a-fA-F]+)|#([0-9]+)|(\w+));/
		defined $1 ? chr hex $1 : defined $2 ? chr $2 : exists $entity{$3} ? $entity{$3} : die "undefined entity $3\n"/ge;
	return $t;
}

sub parse {
	my ($self, $bytes) = @_;
	if (ref $bytes) {
		local $/;
		$bytes = <$bytes>;
	}
	require Encode;
	my $t = utf8::is_utf8($bytes) ? $bytes : Encode::decode('UTF-8', $bytes, Encode::FB_CROAK());
	$t =~ s/^\x{feff}//;
	$t =~ s/\r\n?/\n/g;
	my @open;
	pos($t) = 0;
	my $name = qr/[\w:][\w:.\-]*/;
	while (pos($t) < length $t) {
		if ($t =~ /\G<\?.*?\?>/gcs or $t =~ /\G<!--.*?-->/gcs or $t =~ /\G<!DOCTYPE[^>]*>/gcs) {
			next;
		} elsif ($t =~ /\G<!\[CDATA\[(.*?)\]\]>/gcs) {
			$open[-1]->_add_text($1, '#CDATA');
		} elsif ($t =~ /\G<\/($name)\s*>/gc) {
			my $e = pop @open;
			die "mismatched tag $1\n" unless $e and $e->{tag} eq $1;
			$self->_finish($e);
		} elsif ($t =~ /\G<($name)/gc) {
			my $tag = $1;
			my %att;
			while ($t =~ /\G\s+($name)\s*=\s*("[^"<]*"|'[^'<]*')/gc) {
				my ($k, $v) = ($1, substr($2, 1, -1));
				$v =~ s/[\t\n]/ /g;
				$att{$k} = expand($v);
			}
			$t =~ /\G\s*(\/?)>/gc or die "not well-formed (invalid token) at " . pos($t) . "\n";
			my $empty = $1;
			my $e = bless { tag => $tag, att => \%att, kids => [], twig => $self }, 'XML::Twig::Elt';
			if (@open) {
				$e->{up} = $open[-1];
				push @{$open[-1]{kids}}, $e;
			} else {
				die "junk after document element\n" if $self->{root};
				$self->{root} = $e;
			}
			if ($empty) { $self->_finish($e) } else { push @open, $e }
		} elsif ($t =~ /\G([^<]+)/gc) {
			my $x = $1;
			if (@open) {
				$open[-1]->_add_text(expand($x), '#PCDATA') unless $x =~ /^\s*$/ and $x =~ /\n/;
			} elsif ($x =~ /\S/) {
				die "text outside the document element\n";
			}
		} else {
			die "not well-formed at " . pos($t) . "\n";
		}
	}
	die "no element found\n" if @open or !$self->{root};
	return $self;
}

sub _finish {
	my ($self, $e) = @_;
	for my $h (@{$self->{handlers}}) {
		next unless $e->matches($h->[0]);
		local $_ = $e;
		$h->[1]->($self, $e) or last;
	}
}

sub root { $_[0]{root} }
sub first_elt { my ($self, $c) = @_; my $e = $self->{root}; return $e->matches($c) ? $e : $e->next_elt($c) }
sub purge { 1 }
sub flush { 1 }
sub dispose { 1 }
sub set_pretty_print { 1 }
sub descendants { my ($self, $c) = @_; return ($self->{root}->matches($c) ? $self->{root} : (), $self->{root}->descendants($c)) }
sub findnodes { my $self = shift; return $self->{root}->findnodes(@_) }
*get_xpath = \&findnodes;

package XML::Twig::Elt;
use strict;
use warnings;

our $AUTOLOAD;

sub AUTOLOAD {
	my $name = $AUTOLOAD;
	return if $name =~ /::DESTROY$/;
	XML::Twig::unknown($name);
}

sub _add_text {
	my ($self, $text, $tag) = @_;
	push @{$self->{kids}}, bless { tag => $tag, att => {}, kids => [], up => $self, twig => $self->{twig}, pcdata => $text }, 'XML::Twig::Elt';
}

sub matches {
	my ($self, $c) = @_;
	return 1 if !defined $c or $c eq '';
	return $c->($self) if ref $c eq 'CODE';
	return $self->{tag} =~ $c if ref $c eq 'Regexp';
	return $self->is_elt if $c eq '#ELT';
	return !$self->is_elt if $c eq '#TEXT';
	my $abs = $c =~ s{^/(?!/)}{};
	$c =~ s{^//}{};
	my $e = $self;
	for my $step (reverse split m{/}, $c) {
		return 0 unless $e;
		XML::Twig::unknown("condition $c") unless $step =~ /^(\*|#?[\w:.\-]+)(?:\[\@([\w:.\-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'))?\])?$/;
		my ($n, $a, $v) = ($1, $2, defined $3 ? $3 : $4);
		return 0 unless $n eq '*' ? $e->is_elt : $e->{tag} eq $n;
		return 0 if defined $a and !defined $e->{att}{$a};
		return 0 if defined $v and $e->{att}{$a} ne $v;
		$e = $e->{up};
	}
	return !($abs && $e);
}
*is = \&matches;
*passes = \&matches;

sub is_elt { $_[0]{tag} !~ /^#/ }
sub is_text { $_[0]{tag} =~ /^#/ }
sub tag { $_[0]{tag} }
*gi = \&tag;
*name = \&tag;
*local_name = \&tag;
sub twig { $_[0]{twig} }
sub root { $_[0]{twig}{root} }
sub att { $_[0]{att}{$_[1]} }
sub atts { $_[0]{att} }
sub att_exists { exists $_[0]{att}{$_[1]} }
sub set_att { my ($self, %a) = @_; @{$self->{att}}{keys %a} = values %a; return $self }
sub del_att { my ($self, @a) = @_; delete @{$self->{att}}{@a}; return $self }
sub has_atts { scalar keys %{$_[0]{att}} }
sub att_names { sort keys %{$_[0]{att}} }
sub id { $_[0]{att}{id} }
sub class { $_[0]{att}{class} }

sub parent {
	my ($self, $c) = @_;
	my $e = $self->{up};
	$e = $e->{up} while $e and !$e->matches($c);
	return $e;
}
sub ancestors { my ($self, $c) = @_; my @r; my $e = $self; while ($e = $e->{up}) { push @r, $e if $e->matches($c) } return @r }
sub ancestors_or_self { my ($self, $c) = @_; return (($self->matches($c) ? $self : ()), $self->ancestors($c)) }
sub parent_matches { my ($self, $c) = @_; return $self->{up} && $self->{up}->matches($c) ? $self->{up} : undef }
sub level { scalar $_[0]->ancestors }
sub path { my ($self) = @_; return '/' . join '/', map { $_->{tag} } reverse $self->ancestors_or_self }

sub children { my ($self, $c) = @_; return grep { $_->matches($c) } @{$self->{kids}} }
sub children_count { my @c = children(@_); return scalar @c }
sub children_text { my @t = map { $_->text } children(@_); return wantarray ? @t : join '', @t }
sub children_trimmed_text { my @t = map { $_->trimmed_text } children(@_); return wantarray ? @t : join '', @t }
sub child { my ($self, $n, $c) = @_; return ($self->children($c))[$n] }
sub first_child { my @c = children(@_); return @c ? $c[0] : undef }
sub last_child { my @c = children(@_); return @c ? $c[-1] : undef }
sub first_child_text { my $c = first_child(@_); return $c ? $c->text : '' }
sub last_child_text { my $c = last_child(@_); return $c ? $c->text : '' }
sub first_child_trimmed_text { my $c = first_child(@_); return $c ? $c->trimmed_text : '' }
*field = \&first_child_text;
*trimmed_field = \&first_child_trimmed_text;
*has_child = \&first_child;
*has_children = \&first_child;
sub first_child_matches { my ($self, $c) = @_; my $f = $self->{kids}[0]; return $f && $f->matches($c) ? $f : undef }

sub _sibling {
	my ($self, $c, @around) = @_;
	my $at = 0;
	return () unless $self->{up};
	my @k = @{$self->{up}{kids}};
	$at++ while $k[$at] != $self;
	return ($at, @k);
}
sub next_siblings { my ($self, $c) = @_; my ($at, @k) = $self->_sibling; return () unless defined $at; return grep { $_->matches($c) } @k[$at + 1 .. $#k] }
sub prev_siblings { my ($self, $c) = @_; my ($at, @k) = $self->_sibling; return () unless defined $at; return grep { $_->matches($c) } @k[0 .. $at - 1] }
sub next_sibling { my @s = next_siblings(@_); return @s ? $s[0] : undef }
sub prev_sibling { my @s = prev_siblings(@_); return @s ? $s[-1] : undef }
sub next_sibling_text { my $s = next_sibling(@_); return $s ? $s->text : '' }

sub _next {
	my ($e) = @_;
	return $e->{kids}[0] if @{$e->{kids}};
	while ($e) {
		my $s = $e->next_sibling;
		return $s if $s;
		$e = $e->{up};
	}
	return undef;
}
sub next_elt {
	my ($self, $c, $c2) = @_;
	my $within;
	($within, $c) = ($c, $c2) if ref $c and ref $c eq 'XML::Twig::Elt';
	my $e = $self;
	while ($e = $e->_next) {
		return undef if $within and !grep { $_ == $within } $e->ancestors;
		return $e if $e->matches($c);
	}
	return undef;
}
sub descendants { my ($self, $c) = @_; return map { (($_->matches($c) ? $_ : ()), $_->descendants($c)) } @{$self->{kids}} }
sub descendants_or_self { my ($self, $c) = @_; return (($self->matches($c) ? $self : ()), $self->descendants($c)) }
sub first_descendant { my @d = descendants(@_); return @d ? $d[0] : undef }
sub last_descendant { my @d = descendants(@_); return @d ? $d[-1] : undef }
sub findnodes {
	my ($self, $path) = @_;
	return $self->root->descendants_or_self($1) if $path =~ m{^//([\w:.\-/]+)$};
	$path =~ s{^\./}{};
	return $self->descendants($1) if $path =~ m{^/?/?([\w:.\-]+)$} and $path =~ m{^//};
	my @e = ($self);
	for my $step (split m{/}, $path) {
		@e = map { $_->children($step) } @e;
	}
	return @e;
}
*get_xpath = \&findnodes;

sub text {
	my ($self, @o) = @_;
	XML::Twig::unknown("text option") if grep { $_ ne 'no_recurse' } @o;
	return $self->{pcdata} if defined $self->{pcdata};
	return join '', map { !@o || $_->is_text ? $_->text : () } @{$self->{kids}};
}
sub text_only { my ($self) = @_; return $self->text('no_recurse') }
sub trimmed_text {
	my ($self, @o) = @_;
	my $t = $self->text(@o);
	$t =~ s/\s+/ /g;
	$t =~ s/^\s+|\s+$//g;
	return $t;
}
sub trim {
	my ($self) = @_;
	my $t = $self->trimmed_text;
	@{$self->{kids}} = ();
	$self->_add_text($t, '#PCDATA') if length $t;
	return $self;
}
sub set_text { my ($self, $t) = @_; @{$self->{kids}} = (); $self->_add_text($t, '#PCDATA'); return $self }
sub is_empty { !@{$_[0]{kids}} }
sub contains_text { scalar grep { $_->is_text } @{$_[0]{kids}} }
sub pcdata { $_[0]{pcdata} }
sub delete { my ($self) = @_; @{$self->{up}{kids}} = grep { $_ != $self } @{$self->{up}{kids}} if $self->{up}; return $self }
*cut = \&delete;
sub purge { 1 }

1;
