#!/usr/bin/perl
# Decodes and encodes with the Perl modules on request and describes what is there.
# Request: length (N), operation, options "k=v,k=v" and newline, document.
# Answer: length (N), K or E, then chunks (N, bytes).
use strict;
use warnings;
use feature 'state';
use B ();
use re ();
use Scalar::Util qw(refaddr reftype blessed isweak);
use Sereal::Decoder;
use Sereal::Encoder;
no warnings qw(recursion experimental);

our $inside;    # what a THAW or FREEZE method does besides
sub UNIVERSAL::THAW { my ($class, $serializer, @args) = @_; $inside->() if $inside; return bless [ $class, @args ], 'Verif::Thawed' }
sub Verif::Thawed::FREEZE { my ($self) = @_; $inside->() if $inside; return @{$self}[ 1 .. $#$self ] }

my %immortal = map { refaddr($_) => 1 } \!!1, \!!0, \undef;
my (%seen, @out, %access);
my (%dec, %enc);
my @warnings;

sub str { my ($s) = @_; my $u = utf8::is_utf8($s); my $b = $s; utf8::encode($b) if $u; return ($u ? 'u' : 'b') . unpack('H*', $b) . ';' }

sub describe {
    my ($r) = @_;    # a reference to the SV
    my $a = refaddr $r;
    if (!$immortal{$a}) {
        if ($seen{$a}++) { push @out, sprintf '*%x;', $a; return }
        push @out, sprintf '@%x;', $a;
    }
    my $class = blessed $r;
    my $type  = reftype $r;
    $access{ (B::svref_2object($r)->FLAGS & B::SVf_READONLY ? 'fixed' : 'writable') .
        ($type eq 'ARRAY' || $type eq 'HASH' ? '-container' : $type ne 'REGEXP' && ref $$r ? '-reference' : '-scalar') }++
        unless $immortal{$a};
    if (defined $class) {
        if ($class eq 'Verif::Thawed') {
            push @out, 'Z', map { str($_) } @$r;
            return;
        }
        push @out, 'B' . unpack('H*', $class) . ';';
    }
    if ($type eq 'ARRAY') {
        push @out, 'A' . @$r . '[';
        for my $i (0 .. $#$r) { describe(\$r->[$i]) }
        push @out, ']';
    }
    elsif ($type eq 'HASH') {
        push @out, 'H' . keys(%$r) . '{';
        my %k;
        for my $k (keys %$r) { my $b = $k; utf8::upgrade($b); utf8::encode($b); $k{$b} = $k }
        for my $b (sort keys %k) { push @out, unpack('H*', $b) . '='; describe(defined $r->{ $k{$b} } ? \$r->{ $k{$b} } : eval { \$r->{ $k{$b} } } || \undef) }
        push @out, '}';
    }
    elsif ($type eq 'REGEXP') {
        my ($pat, $mod) = re::regexp_pattern($r);
        $mod =~ tr/msixp//cd;
        utf8::upgrade($pat);
        push @out, 'X' . str($pat) . join('', sort split //, $mod) . ';';
    }
    elsif (ref $$r) {
        push @out, isweak($$r) ? 'W' : 'R';
        describe($$r);
    }
    elsif (!defined $$r) { push @out, 'U;' }
    elsif (builtin::is_bool($$r)) { push @out, $$r ? 't;' : 'f;' }
    else {
        my $f = B::svref_2object($r)->FLAGS;
        if    ($f & B::SVf_POK) { push @out, str($$r) }
        elsif ($f & B::SVf_IOK) { push @out, 'i' . ($$r + 0) . ';' }
        elsif ($f & B::SVf_NOK) { push @out, 'n' . ($$r != $$r ? 'nan' : unpack 'H*', pack 'd>', $$r) . ';' }
        else                    { push @out, "?$f;" }
    }
}

sub dump_of { my ($r) = @_; %seen = @out = (); describe($r); my $s = join '', @out; %seen = @out = (); return $s }

binmode STDIN;
binmode STDOUT;
$| = 1;

sub get {
    my ($n) = @_;
    my $b = '';
    while (length $b < $n) { my $k = read STDIN, $b, $n - length $b, length $b; exit 0 unless $k }
    return $b;
}

# Merges: parts are chunks of a letter and bytes. What happens to each is in the first chunk of the answer.
sub merge {
    my ($parts, $o) = @_;
    require Sereal::Merger;
    my $m = Sereal::Merger->new($o);
    my ($said, $header) = '';
    my @all;
    for my $p (@$parts) {
        my $k = substr $p, 0, 1, '';
        if ($k eq 'h') { $header = $p; next }
        if ($k eq 'b') { push @all, $p; next }
        my $before = $m->elements_merged;
        my $ok;
        if ($k eq 'A') { push @all, $p; $ok = eval { $m->append_all(\@all); 1 }; @all = () }
        else           { $ok = eval { $m->append($p); 1 } }
        $said .= ($ok ? 'k' : 'e') . ($m->elements_merged - $before) . ($ok ? '' : ":$@") . "\0";
    }
    return ($said, $m->elements_merged, defined $header ? $m->finish($header) : $m->finish);
}

sub chunks {
    my ($b) = @_;
    my (@l, $i);
    for ($i = 0; $i < length $b;) { my $n = unpack 'N', substr $b, $i, 4; push @l, substr $b, $i + 4, $n; $i += 4 + $n }
    return \@l;
}

sub decoder {
    my ($o, $d) = @_;
    return Sereal::Decoder->new($d) unless $o->{reuse};
    state %known;
    %known = () if keys %known > 100;
    return $known{ join ',', map { "$_=$d->{$_}" } sort keys %$d } ||= Sereal::Decoder->new($d);
}

# Decodes documents in each of the ways there are.
my %functional = (
    decode => \&Sereal::Decoder::sereal_decode_with_object,
    with_header => \&Sereal::Decoder::sereal_decode_with_header_with_object,
    only_header => \&Sereal::Decoder::sereal_decode_only_header_with_object,
    with_offset => \&Sereal::Decoder::sereal_decode_with_offset_with_object,
    with_header_and_offset => \&Sereal::Decoder::sereal_decode_with_header_and_offset_with_object,
    only_header_with_offset => \&Sereal::Decoder::sereal_decode_only_header_with_offset_with_object,
);

sub decode_as {
    my ($o, $d, $buf) = @_;
    my (@res, @inner);
    my $nested = $o->{nested} ? substr $buf, -$o->{nested}, $o->{nested}, '' : '';
    my $looks = Sereal::Decoder->looks_like_sereal($o->{offset} ? substr $buf, $o->{offset} : $buf);
    push @res, join ' ', "<$looks>", map { "<$_>" } Sereal::Decoder::scalar_looks_like_sereal($buf);
    utf8::upgrade($buf) if $o->{utf8};
    my $all = "x$buf";
    my $dec = decoder($o, $d);
    my $api = $o->{api};
    local $inside = $o->{nested} && sub {
        local $inside;
        my %to = (v => undef);
        my $b = $nested;
        my $said = eval { $dec->decode($b, $to{v}); 1 } ? 'K' : "E$@";
        utf8::encode($said);
        %access = ();
        my $dump = $said eq 'K' ? dump_of(\$to{v}) : '';
        push @inner, $said, $dump, join ' ', $dec->bytes_consumed, length $b, sort keys %access;
        die "by request\n" if $o->{dies};
    };
    if ($api eq 'from_file') {
        (my $name = $0) =~ s/[^\/]*$/file.$$/;
        open my $fh, '>:raw', $name or die "$name: $!";
        utf8::downgrade($buf); print $fh $buf;
        close $fh;
        my (@l, $v);
        if    ($d->{incremental})     { @l = $dec->decode_from_file($name) }
        elsif ($o->{style} eq 'into') { $dec->decode_from_file($name, $v) }
        else                          { $l[0] = $dec->decode_from_file($name) }
        unlink $name;
        return @res, map { dump_of(\$_) } $o->{style} eq 'into' && !$d->{incremental} ? $v : @l;
    }
    my $name = $api eq 'decode' ? $api : "decode_$api";
    for (1 .. $o->{count}) {
        my %to = (v => undef, h => undef);    # not variables, which a document could turn into arrays
        my @args = $api =~ /offset/ ? $o->{offset} : ();
        my $f = $o->{func} ? $functional{$api} : $dec->can($name);
        if ($o->{style} eq 'into') {
            my $first = $api =~ /only_header/ ? 'h' : 'v';
            if ($api =~ /with_header/) {
                if ($o->{magic}) { $f->($dec, substr($buf, 0), @args, $to{v}, $to{h}) }
                else             { $f->($dec, $buf, @args, $to{v}, $to{h}) }
            }
            else {
                if ($o->{magic}) { $f->($dec, substr($buf, 0), @args, $to{$first}) }
                else             { $f->($dec, $buf, @args, $to{$first}) }
            }
        }
        else {
            my $r = $o->{magic} ? $f->($dec, substr($buf, 0), @args) : $f->($dec, $buf, @args);
            if    ($api =~ /with_header/) { @to{qw(h v)} = @$r }
            elsif ($api =~ /only_header/) { $to{h} = $r }
            else                          { $to{v} = $r }
        }
        %access = ();
        push @res, $api =~ /only_header/ ? '' : dump_of(\$to{v}), $api =~ /header/ ? dump_of(\$to{h}) : '';
        push @res, join ' ', $dec->bytes_consumed, length $buf, $buf eq substr($all, length($all) - length $buf) ? 'same' : 'changed', sort keys %access;
    }
    return @res, @inner;
}

# Things Sereal has no representation for, by kind.
my $code = sub { 1 };
my @unknown = (
    sub { $code },
    sub { \*STDOUT },
    sub { *STDOUT{IO} },
    sub { state $c = bless sub { 2 }, 'Verif::Code'; $c },
    sub { my $c = $code; \$c },
    sub { $code },    # weak
    sub { *STDOUT },
    sub { state $c = bless sub { 3 }, 'Verif::Overloaded'; $c },
);
{ package Verif::Overloaded; use overload '""' => sub { 'overloaded' }, '0+' => sub { 1 }, fallback => 1; }

# Puts them in place of every nth plain scalar in arrays and hashes. Returns what to do to get either.
sub unknowns {
    my ($root, $every, $kinds) = @_;
    my (%been, %element, @where, $n);
    my @todo = ($root);
    while (@todo) {
        my $r = shift @todo;
        next if $immortal{ refaddr $r } || $been{ refaddr $r }++;
        my $type = reftype $r;
        if ($type eq 'REF') { push @todo, $$r if (blessed $$r // '') ne 'Verif::Thawed' }
        elsif ($type eq 'ARRAY') { push @todo, map { $element{ refaddr \$r->[$_] } = \$r->[$_] } 0 .. $#$r }
        elsif ($type eq 'HASH') { push @todo, map { $element{ refaddr \$r->{$_} } = \$r->{$_} } sort keys %$r }
        elsif ($r != $root && $type ne 'REGEXP' && !blessed $r && !(B::svref_2object($r)->FLAGS & B::SVf_READONLY)) { push @where, $r unless $n++ % $every }
    }
    my $i = 0;
    return map { my $k = $kinds->[ $i++ % @$kinds ]; [ $_, $k == 6 && !$element{ refaddr $_ } ? 0 : $k ] } @where;
}

# Encodes data in each of the ways there are: they must agree.
sub encode_as {
    my ($o, $d, $e, $req) = @_;
    my %to = (v => undef, h => undef);
    my $dec = Sereal::Decoder->new($d);
    if ($o->{header}) { $dec->decode_with_header($req, $to{v}, $to{h}) }
    else              { $dec->decode($req, $to{v}) }
    $to{h} = $to{v} if $o->{mirror};
    my @where = $o->{unknown} ? unknowns(\$to{v}, $o->{unknown}, [ split //, $o->{kinds} ]) : ();
    my $as = $o->{as} // '';
    for my $w (@where) {
        my ($r, $k) = @$w;
        my $c = $unknown[$k]->();
        my $s = $as eq 'string' ? $k == 4 ? "$$c" : "$c" : undef;
        $$r = $k == 4 ? \$s : $s;
    }
    my @res = (dump_of(\$to{v}), dump_of(\$to{h}));
    for my $w (@where) {
        my ($r, $k) = @$w;
        my $c = $unknown[$k]->();
        $$r = $c;
        Scalar::Util::weaken($$r) if $k == 5;
    }
    my $args = sub { \@_ }->($to{v}, $o->{header} ? $to{h} : ());    # the very values, not copies
    my $kept = $o->{reuse} ? ($enc{ join ',', map { "$_=$e->{$_}" } sort keys %$e } ||= Sereal::Encoder->new($e)) : Sereal::Encoder->new($e);
    my $with = sub { my ($f) = @_; my $r = eval { $f->() }; $@ =~ s/ at \S+ line \d+\.?\n*//; defined $r ? "K$r" : "E$@" };
    @warnings = ();
    my $first = $with->(sub { Sereal::Encoder->new($e)->encode(@$args) });
    push @res, $first, scalar(grep { /not representable/ } @warnings), scalar @where;
    my $bad = '';
    my $same = sub { my ($what, $got) = @_; $bad .= "$what: $got\n" if $got ne $first };
    my $frozen;
    for my $way (split //, $o->{ways}) {
        if    ($way eq 'm') { $same->('method', $with->(sub { $kept->encode(@$args) })) }
        elsif ($way eq 'f') {
            if (@$args > 1) { $same->('function', $with->(sub { Sereal::Encoder::sereal_encode_with_object($kept, $args->[0], $args->[1]) })) }
            else            { $same->('function', $with->(sub { Sereal::Encoder::sereal_encode_with_object($kept, $args->[0]) })) }
        }
        elsif ($way eq 'i') {
            $same->('indirect function', $with->(sub { &{ \&Sereal::Encoder::sereal_encode_with_object }($kept, @$args) }));
        }
        elsif ($way eq 's') {
            if (@$args > 1) { $same->('with header data', $with->(sub { Sereal::Encoder::encode_sereal_with_header_data(@$args, $e) })) }
            else           { $same->('encode_sereal', $with->(sub { Sereal::Encoder::encode_sereal(@$args, $e) })) }
        }
        elsif ($way eq 'F' && @$args == 1) {
            (my $name = $0) =~ s/[^\/]*$/file.$$/;
            my $all_of_it = '';
            for my $append (1, 0, 1, 1, 0) {
                my $r = eval { $kept->encode_to_file($name, $args->[0], $append); 1 };
                $@ =~ s/ at \S+ line \d+\.?\n*//;
                if (!$r) { $same->('to file', "E$@"); last }
                open my $fh, '<:raw', $name or die "$name: $!";
                my $all = join '', <$fh>;
                my $one = sub { my ($x) = @_; return Sereal::Encoder->new($e)->encode($x) }->($args->[0]);
                $all_of_it = $append ? "$all_of_it$one" : $one;
                $bad .= "to file ($append): $all\n" if $all ne $all_of_it;
            }
            unlink $name;
        }
        elsif (($way eq 'n' || $way eq 'd') && $e->{freeze_callbacks}) {
            my $obj = bless [ 'Some', 1, 'text' ], 'Verif::Thawed';
            $obj = [ $obj, 'more text' ] if $o->{reuse};
            $frozen //= $with->(sub { Sereal::Encoder->new($e)->encode($obj) });
            my $inner;
            local $inside = sub {
                local $inside;
                $inner = $with->(sub { $kept->encode(@$args) });
                die "by request\n" if $way eq 'd';
            };
            my $outer = $with->(sub { $kept->encode($obj) });
            $same->('within FREEZE', $inner // 'not called') if defined $inner || substr($frozen, 0, 1) eq 'K';
            $bad .= "around FREEZE: $outer instead of $frozen\n" if $way eq 'n' && $outer ne $frozen;
            $bad .= "dying FREEZE: $outer\n" if $way eq 'd' && defined $inner && $outer !~ /^Eby request/;
        }
    }
    # whatever happened, the encoder is fine
    my $more = [ 'after', { key => 'after' }, \'after' ];
    my @more = ($more, ($e->{protocol_version} // 5) > 1 && !$e->{use_protocol_v1} ? [ 'after', 'header' ] : ());
    my ($want, $got) = map { my $enc = $_; $with->(sub { $enc->encode(@more) }) } Sereal::Encoder->new($e), $kept;
    $bad .= "afterwards: $got instead of $want\n" if $got ne $want;
    push @res, $bad;
    delete @to{qw(v h)};
    return @res;
}

# Encodes a tied hash or array of keys given as a letter and text, with values "v" and the key or references to such.
{
    package Verif::Tied;
    sub TIEHASH  { my ($c, @k) = @_; return bless { k => \@k, n => 0 }, $c }
    sub FIRSTKEY { my ($s) = @_; $s->{n} = 0; return $s->NEXTKEY }
    sub NEXTKEY  { my ($s) = @_; return $s->{k}[ $s->{n}++ ] }
    sub FETCH    { my ($s, $k) = @_; my $v = "v$k"; return length($v) % 2 ? [$v] : $v }
    sub EXISTS { 1 }
    sub SCALAR { 1 }
    sub TIEARRAY { my ($c, @k) = @_; return bless { k => \@k }, $c . 'Array' }
    package Verif::TiedArray;
    our @ISA = 'Verif::Tied';
    sub FETCHSIZE { return scalar @{ $_[0]{k} } }
    sub FETCH { my ($s, $i) = @_; return Verif::Tied::FETCH($s, $s->{k}[$i]) }
}

sub tied_up {
    my ($o, $e, $list) = @_;
    my @keys = map {
        my ($k, $s) = /^(.)(.*)/s;
        if ($k eq 'u') { utf8::decode($s) }
        if ($k eq 'i') { $s = int $s }
        if ($k eq 'n') { $s = $s / 4 }
        if ($k eq 'd') { my $x = $s . ''; $x += 0; no warnings; $s = $s . ''; my $y = $s + 0 }    # text that has been used as a number
        $s;
    } @$list;
    my $enc = Sereal::Encoder->new($e);
    if ($o->{array}) { tie my @a, 'Verif::Tied', @keys; return $enc->encode(\@a) }
    tie my %h, 'Verif::Tied', @keys;
    if ($o->{plain}) {
        my %p;
        for my $k (@keys) { $p{$k} = $h{$k} }
        return $enc->encode($o->{twice} ? [ \%p, \%p ] : \%p);
    }
    return $enc->encode($o->{twice} ? [ \%h, \%h ] : \%h);
}

# used: scalars that are texts or numbers (N, S, I), used in some context, and
# what Perl makes of the array of them. Its parts are the document, what Perl
# decodes of it, and the texts or numbers themselves.
sub used {
    my ($o, $e, $list) = @_;
    no warnings;
    my (@a, @want);
    for (@$list) {
        my ($how, $x) = /^(.)(.*)/s;
        if ($how =~ /[NSI]/) {
            $x = "$x" + 0;
            push @want, 'n' . pack('d>', $x) . $x;
            $x = $x * 1;
        }
        else { push @want, "s$x" }
        my $y;
        if    ($how eq '+') { $y = $x + 0 }
        elsif ($how eq 'i') { $y = int $x }
        elsif ($how eq 'I') { $y = int $x }
        elsif ($how eq '|') { $y = $x | 1 }
        elsif ($how eq '*') { $y = $x * 1.5 }
        elsif ($how eq '=') { $y = $x == 3 }
        elsif ($how eq '&') { $y = $x + 0; $y = $x | 0 }
        elsif ($how eq '%') { $y = sprintf '%d %f', $x, $x }
        elsif ($how eq 'S') { $y = "$x" }
        push @a, $x;
        if ($o->{copy}) { my $z = $x; $a[-1] = $z }
    }
    my $doc = Sereal::Encoder->new($e)->encode($o->{deep} ? [ \(@a) ] : \@a);
    return $doc, @want;
}


$SIG{__WARN__} = sub { push @warnings, @_ };
while (1) {
    my $req = get(unpack 'N', get(4));
    my $op = substr $req, 0, 1, '';
    $req =~ s/^([^\n]*)\n//s or die 'bad request';
    my %o = map { split /=/, $_, 2 } split /,/, $1;
    my %d = map { /^d_(.*)/ ? ($1 => $o{$_}) : () } keys %o;
    my %e = map { /^e_(.*)/ ? ($1 => $o{$_}) : () } keys %o;
    my @res;
    @warnings = ();
    my $ok = eval {
        if ($op eq 'M') { @res = merge(chunks($req), \%e); return 1 }
        if ($op eq 'X') { @res = encode_as(\%o, \%d, \%e, $req); return 1 }
        if ($op eq 'Y') { @res = tied_up(\%o, \%e, chunks($req)); return 1 }
        if ($op eq 'U') { @res = used(\%o, \%e, chunks($req)); return 1 }
        if ($op eq 'O') { @res = decode_as(\%o, \%d, $req); return 1 }
        my $dec = $o{reuse} ? ($dec{ join ',', map { "$_=$d{$_}" } sort keys %d } ||= Sereal::Decoder->new(\%d)) : Sereal::Decoder->new(\%d);
        my ($v, $h);
        if ($o{header}) { $dec->decode_with_header($req, $v, $h) }
        else            { $dec->decode($req, $v) }
        push @res, dump_of(\$v);
        push @res, dump_of(\$h) if $o{header};
        if ($op eq 'E') {
            my $enc = $o{reuse} ? ($enc{ join ',', map { "$_=$e{$_}" } sort keys %e } ||= Sereal::Encoder->new(\%e)) : Sereal::Encoder->new(\%e);
            push @res, $o{header} && $e{protocol_version} > 1 ? $enc->encode($v, $h) : $enc->encode($v);
        }
        # no reference to the data of one request may stay for the next one
        undef $v;
        undef $h;
        1;
    };
    if ($ok && grep { /unreferenced|freed|corrupt|panic/ } @warnings) { $ok = 0; $@ = "@warnings" }
    if (!$ok) { @res = "$@"; utf8::encode($res[0]) }
    my $b = ($ok ? 'K' : 'E') . join '', map { pack('N', length $_) . $_ } @res;
    print pack('N', length $b), $b;
}
