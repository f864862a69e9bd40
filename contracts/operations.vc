opts { ufcs; }
items {
    // The digits of |v| scaled by S, halves away from zero.
    pub open spec fn scale(radix: int, p: int) -> int { ipow(radix, p as nat) }
    pub open spec fn scaled(v: real, radix: int, p: int) -> real { v * (scale(radix, p) as real) }
    pub open spec fn dec_n(v: real, radix: int, p: int) -> int { rround(rabs(scaled(v, radix, p))) }
    pub open spec fn upif(s: Seq<char>, upper: bool) -> Seq<char> { if upper { up(s) } else { s } }
    // Groups of three characters, counted from the right.
    pub open spec fn grouped(s: Seq<char>) -> Seq<char> decreases s.len() {
        if s.len() <= 3 { s } else { grouped(s.take(s.len() - 3)) + seq![','] + s.skip(s.len() - 3) }
    }
    pub open spec fn frac_text(v: real, radix: int, p: int, upper: bool) -> Seq<char> {
        if p == 0 { Seq::empty() } else {
            let f = upif(pad_left(to_digits(dec_n(v, radix, p) % scale(radix, p), radix), '0', p), upper);
            if is_int(scaled(v, radix, p)) { drop_tail(f, '0') } else { f }
        }
    }
    pub open spec fn int_part(v: real, radix: int, p: int, upper: bool) -> Seq<char> { upif(to_digits(dec_n(v, radix, p) / scale(radix, p), radix), upper) }
    pub open spec fn dec_text(v: real, radix: int, p: int, commas: bool, upper: bool) -> Seq<char> {
        let sign = if v < 0real { seq!['-'] } else { Seq::empty() };
        let i = int_part(v, radix, p, upper);
        let whole = sign + (if commas { grouped(i) } else { i });
        let f = frac_text(v, radix, p, upper);
        if f.len() == 0 { whole } else { whole + seq!['.'] + f }
    }
    pub open spec fn frac_string(v: real, radix: int, upper: bool) -> Seq<char> {
        upif(if is_int(v) { int_text(rn(v), radix) } else { int_text(rn(v), radix) + seq!['/'] + int_text(rd(v), radix) }, upper)
    }
    pub proof fn scale_pos(radix: int, p: nat)
        requires radix >= 1
        ensures ipow(radix, p) >= 1
        decreases p
    { if p > 0 { scale_pos(radix, (p - 1) as nat); assert(radix * ipow(radix, (p - 1) as nat) >= 1) by (nonlinear_arith) requires radix >= 1, ipow(radix, (p - 1) as nat) >= 1; } }
}
func "make_decimal_string" { ret r; props { C06, C07, C05 }
  spec { requires 2 <= radix <= 16 ensures r@ == dec_text(value@, radix as int, precision as int, commas, upper) }
  inline map 0 { |s: &[char]| -> (t: String) ensures t@ =~= s@ }
  entry { proof { reveal_strlit(","); reveal_strlit("-"); reveal_strlit(""); reveal_strlit("."); scale_pos(radix as int, precision as nat); dec_facts(value@, radix as int, precision as int); } }
  before_let int_string_commas {
    assert forall|v: Seq<String>| chunks_of(int_string@, v) implies #[trigger] joined(v, ","@) == grouped(int_string@) by { assert(","@ =~= seq![',']); group_chunks(int_string@, v); }
  }
}
items {
    pub open spec fn chunks_of(s: Seq<char>, v: Seq<String>) -> bool {
        &&& v.len() == (s.len() + 2) / 3
        &&& forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j])@ == s.subrange(chunk_start(s.len() as int, 3, v.len() - 1 - j), s.len() - (v.len() - 1 - j) * 3)
    }
    pub proof fn group_chunks(s: Seq<char>, v: Seq<String>)
        requires chunks_of(s, v)
        ensures joined(v, seq![',']) == grouped(s)
        decreases s.len()
    {
        let n = s.len() as int;
        if n == 0 { assert(grouped(s) =~= joined(v, seq![','])); }
        else if n <= 3 { assert(v.len() == 1); assert(v[0]@ =~= s); }
        else {
            let t = s.take(n - 3); let w = v.drop_last();
            assert(v.last()@ =~= s.skip(n - 3));
            assert forall|j: int| 0 <= j < w.len() implies (#[trigger] w[j])@ == t.subrange(chunk_start(t.len() as int, 3, w.len() - 1 - j), t.len() - (w.len() - 1 - j) * 3) by {
                assert(w[j] == v[j]);
                assert(w[j]@ =~= t.subrange(chunk_start(t.len() as int, 3, w.len() - 1 - j), t.len() - (w.len() - 1 - j) * 3));
            }
            group_chunks(t, w);
        }
    }
    pub proof fn dec_facts(v: real, radix: int, p: int)
        requires radix >= 2, p >= 0
        ensures dec_n(v, radix, p) >= 0, scale(radix, p) >= 1,
            idiv(dec_n(v, radix, p), scale(radix, p)) == dec_n(v, radix, p) / scale(radix, p),
            irem(dec_n(v, radix, p), scale(radix, p)) == dec_n(v, radix, p) % scale(radix, p),
            is_int(rabs(scaled(v, radix, p))) == is_int(scaled(v, radix, p)),
            rtrunc(dec_n(v, radix, p) as real) == dec_n(v, radix, p)
    {
        scale_pos(radix, p as nat);
        let n = dec_n(v, radix, p); let s = scale(radix, p);
        assert(n - s * (n / s) == n % s) by (nonlinear_arith) requires s >= 1;
        let x = scaled(v, radix, p);
        if is_int(x) { assert((0real - x).floor() == 0 - x.floor()); }
        if is_int(rabs(x)) && x < 0real { assert(x == (0 - (0real - x).floor()) as real); assert(x.floor() == 0 - (0real - x).floor()); }
    }
}
items {
    proof fn ipow_add(r: int, a: nat, b: nat)
        ensures ipow(r, a + b) == ipow(r, a) * ipow(r, b)
        decreases b
    {
        if b > 0 {
            ipow_add(r, a, (b - 1) as nat);
            assert(ipow(r, a + b) == r * ipow(r, (a + b - 1) as nat));
            assert(r * (ipow(r, a) * ipow(r, (b - 1) as nat)) == ipow(r, a) * (r * ipow(r, (b - 1) as nat))) by (nonlinear_arith);
        }
    }
    pub proof fn digits_cat(a: Seq<char>, b: Seq<char>, r: int)
        ensures digits_val(a + b, r) == digits_val(a, r) * ipow(r, b.len()) + digits_val(b, r)
        decreases b.len()
    {
        if b.len() == 0 { assert(a + b =~= a); } else {
            let c = b.drop_last();
            assert((a + b).drop_last() =~= a + c);
            assert((a + b).last() == b.last());
            digits_cat(a, c, r);
            let (x, y, z, d) = (digits_val(a, r), ipow(r, c.len()), digits_val(c, r), digit_val(b.last()));
            assert(ipow(r, b.len()) == r * y);
            assert((x * y + z) * r + d == x * (r * y) + (z * r + d)) by (nonlinear_arith);
        }
    }
    proof fn digits_up(s: Seq<char>, r: int, u: bool)
        requires r <= 36
        ensures digits_val(upif(s, u), r) == digits_val(s, r), all_digits(s, r) ==> all_digits(upif(s, u), r), upif(s, u).len() == s.len(), s.len() > 0 && s[0] == '0' <==> upif(s, u).len() > 0 && upif(s, u)[0] == '0'
        decreases s.len()
    {
        assert forall|c: char| digit_val(c) < 36 implies #[trigger] digit_val(up_c(c)) == digit_val(c) by {}
        assert forall|c: char| #[trigger] digit_val(up_c(c)) == digit_val(c) by {}
        if u && s.len() > 0 {
            digits_up(s.drop_last(), r, u);
            assert(up(s).drop_last() =~= up(s.drop_last()));
        }
    }
    proof fn digits_rep(n: int, r: int)
        requires n >= 0, r >= 1
        ensures digits_val(rep('0', n), r) == 0, all_digits(rep('0', n), r)
        decreases n
    {
        if n > 0 { digits_rep(n - 1, r); assert(rep('0', n).drop_last() =~= rep('0', n - 1)); }
    }
    proof fn digits_len(n: int, r: int, p: nat)
        requires 0 <= n < ipow(r, p), r >= 2, p >= 1
        ensures to_digits(n, r).len() <= p
        decreases p
    {
        if n >= r {
            assert(p >= 2) by { assert(ipow(r, 1) == r * ipow(r, 0)); if p == 1 { assert(ipow(r, p) == r * 1); } }
            let q = ipow(r, (p - 1) as nat);
            assert(ipow(r, p) == r * q);
            assert(n / r < q) by (nonlinear_arith) requires n < r * q, r >= 2, n >= 0;
            assert(0 <= n / r) by (nonlinear_arith) requires n >= 0, r >= 2;
            digits_len(n / r, r, (p - 1) as nat);
        }
    }
    proof fn digits_drop(s: Seq<char>, r: int)
        requires r >= 1
        ensures drop_tail(s, '0').len() <= s.len(), drop_tail(s, '0') == s.take(drop_tail(s, '0').len() as int),
            digits_val(s, r) == digits_val(drop_tail(s, '0'), r) * ipow(r, (s.len() - drop_tail(s, '0').len()) as nat)
        decreases s.len()
    {
        let t = drop_tail(s, '0');
        if s.len() == 0 || s.last() != '0' { assert(s.take(s.len() as int) =~= s); assert(ipow(r, 0) == 1); }
        else {
            digits_drop(s.drop_last(), r);
            assert(s.drop_last().take(t.len() as int) =~= s.take(t.len() as int));
            let k = (s.drop_last().len() - t.len()) as nat;
            assert(ipow(r, k + 1) == r * ipow(r, k));
            let (x, y) = (digits_val(t, r), ipow(r, k));
            assert(digit_val('0') == 0);
            assert((x * y) * r == x * (r * y)) by (nonlinear_arith);
        }
    }
    // C06, C07: the digits that are printed are those of the rounded value, in every combination of settings.
    pub proof fn digits_printed(v: real, radix: int, p: int, upper: bool)
        requires 2 <= radix <= 16, p >= 0
        ensures ({ let a = int_part(v, radix, p, upper); let b = frac_text(v, radix, p, upper);
            &&& a.len() >= 1 && all_digits(a, radix) && all_digits(b, radix) && b.len() <= p
            &&& (a[0] == '0' ==> a.len() == 1)
            &&& digits_val(a + b, radix) * scale(radix, p) == dec_n(v, radix, p) * ipow(radix, b.len())
            &&& (!is_int(scaled(v, radix, p)) ==> b.len() == p)
            &&& (is_int(scaled(v, radix, p)) ==> b.len() == 0 || b.last() != '0')
        })
    {
        dec_facts(v, radix, p);
        let n = dec_n(v, radix, p); let s = scale(radix, p);
        let a0 = to_digits(n / s, radix); let a = int_part(v, radix, p, upper); let b = frac_text(v, radix, p, upper);
        assert(0 <= n / s && 0 <= n % s < s && n == (n / s) * s + n % s) by (nonlinear_arith) requires n >= 0, s >= 1;
        lemma_to_digits(n / s, radix); lemma_to_digits(n % s, radix);
        digits_up(a0, radix, upper);
        if a0[0] == '0' { assert(a0.len() == 1); }
        if p == 0 {
            assert(s == 1); assert(ipow(radix, 0) == 1);
            assert(b =~= Seq::<char>::empty()); assert(a + b =~= a);
            assert(n / s == n && n % s == 0) by (nonlinear_arith) requires s == 1;
            assert(digits_val(a + b, radix) * s == n * ipow(radix, b.len())) by (nonlinear_arith) requires digits_val(a + b, radix) == n, s == 1, ipow(radix, b.len()) == 1;
        } else {
            let f0 = to_digits(n % s, radix);
            digits_len(n % s, radix, p as nat);
            let f1 = pad_left(f0, '0', p);
            digits_rep(p - f0.len(), radix);
            digits_cat(rep('0', p - f0.len()), f0, radix);
            let f = upif(f1, upper);
            digits_up(f1, radix, upper);
            assert(f.len() == p);
            assert(digits_val(f1, radix) == n % s) by { assert(0 * ipow(radix, f0.len()) == 0) by (nonlinear_arith); }
            digits_drop(f, radix);
            let d = (f.len() - b.len()) as nat;
            if !is_int(scaled(v, radix, p)) { assert(ipow(radix, 0) == 1); assert(b == f); assert(digits_val(f, radix) == digits_val(b, radix) * 1); }
            else { drop_last_ok(f); }
            assert(digits_val(f, radix) == digits_val(b, radix) * ipow(radix, d));
            digits_cat(a, b, radix);
            ipow_add(radix, b.len(), d);
            let (x, y, z, w) = (n / s, digits_val(b, radix), ipow(radix, b.len()), ipow(radix, d));
            assert(s == z * w);
            assert((x * z + y) * (z * w) == (x * (z * w) + y * w) * z) by (nonlinear_arith);
            assert(digits_val(a + b, radix) == x * z + y);
            assert(n == x * s + y * w);
            assert(all_digits(b, radix));
        }
    }
    proof fn drop_last_ok(s: Seq<char>)
        ensures drop_tail(s, '0').len() == 0 || drop_tail(s, '0').last() != '0'
        decreases s.len()
    { if s.len() > 0 && s.last() == '0' { drop_last_ok(s.drop_last()); } }
    // The printed number as a rational: exact whenever that is possible, otherwise at most half a unit of the last digit away.
    pub open spec fn read_value(a: Seq<char>, b: Seq<char>, radix: int) -> real { (digits_val(a + b, radix) as real) / (ipow(radix, b.len()) as real) }
    pub proof fn reads_back(v: real, radix: int, p: int, upper: bool)
        requires 2 <= radix <= 16, p >= 0
        ensures ({ let x = read_value(int_part(v, radix, p, upper), frac_text(v, radix, p, upper), radix);
            &&& (is_int(scaled(v, radix, p)) ==> x == rabs(v))
            &&& rabs(x - rabs(v)) * (2real * (scale(radix, p) as real)) <= 1real
            &&& x == (dec_n(v, radix, p) as real) / (scale(radix, p) as real) })
    {
        digits_printed(v, radix, p, upper);
        dec_facts(v, radix, p);
        let a = int_part(v, radix, p, upper); let b = frac_text(v, radix, p, upper);
        let d = digits_val(a + b, radix) as real; let z = ipow(radix, b.len()) as real; let s = scale(radix, p) as real; let n = dec_n(v, radix, p) as real;
        scale_pos(radix, b.len());
        assert(d * s == n * z) by {
            let (i, j, k, l) = (digits_val(a + b, radix), scale(radix, p), dec_n(v, radix, p), ipow(radix, b.len()));
            assert(i * j == k * l);
            assert((i as real) * (j as real) == (i * j) as real) by (nonlinear_arith);
            assert((k as real) * (l as real) == (k * l) as real) by (nonlinear_arith);
        }
        let x = d / z;
        assert(x * s == n && x == n / s) by (nonlinear_arith) requires d * s == n * z, z >= 1real, s >= 1real, x == d / z;
        let w = rabs(v);
        assert(rabs(v * s) == w * s) by (nonlinear_arith) requires s >= 1real, w == rabs(v);
        let y = w * s;
        assert(n == (y + 0.5real).floor() as real) by { assert(y >= 0real) by (nonlinear_arith) requires w >= 0real, s >= 1real, y == w * s; }
        assert(n - y <= 0.5real && y - n <= 0.5real);
        assert(rabs(x - w) * (2real * s) <= 1real) by (nonlinear_arith) requires n - w * s <= 0.5real, w * s - n <= 0.5real, x * s == n, s >= 1real;
        if is_int(scaled(v, radix, p)) {
            assert(is_int(y));
            assert((y + 0.5real).floor() == y.floor());
            assert(x == w) by (nonlinear_arith) requires x * s == w * s, s >= 1real;
        }
    }
}
func "make_fraction_string" { ret r; props { C06, C05 }
  spec { requires 2 <= radix <= 16 ensures r@ == frac_string(value@, radix as int, upper) } }
items {
    // ---- powers, for roots ----
    pub proof fn pw_pos(a: real, n: nat)
        ensures a >= 0real ==> rpow(a, n) >= 0real, a > 0real ==> rpow(a, n) > 0real
        decreases n
    {
        if n > 0 { let q = rpow(a, (n - 1) as nat); pw_pos(a, (n - 1) as nat);
            if a >= 0real { assert(a * q >= 0real) by (nonlinear_arith) requires a >= 0real, q >= 0real; }
            if a > 0real { assert(a * q > 0real) by (nonlinear_arith) requires a > 0real, q > 0real; } }
    }
    pub proof fn pw_one(n: nat) ensures rpow(1real, n) == 1real decreases n { if n > 0 { pw_one((n - 1) as nat); } }
    pub proof fn pw_mul(a: real, b: real, n: nat) ensures rpow(a * b, n) == rpow(a, n) * rpow(b, n) decreases n
    {
        if n > 0 { pw_mul(a, b, (n - 1) as nat); let p = rpow(a, (n - 1) as nat); let q = rpow(b, (n - 1) as nat);
            assert((a * b) * (p * q) == (a * p) * (b * q)) by (nonlinear_arith); }
    }
    pub proof fn pw_mono(a: real, b: real, n: nat)
        requires 0real <= a <= b
        ensures rpow(a, n) <= rpow(b, n), a < b && n >= 1 ==> rpow(a, n) < rpow(b, n)
        decreases n
    {
        if n > 0 {
            let p = rpow(a, (n - 1) as nat); let q = rpow(b, (n - 1) as nat);
            pw_mono(a, b, (n - 1) as nat); pw_pos(a, (n - 1) as nat); pw_pos(b, (n - 1) as nat);
            assert(a * p <= b * q) by (nonlinear_arith) requires 0real <= a <= b, 0real <= p <= q;
            if a < b { assert(a * p < b * q) by (nonlinear_arith) requires 0real <= a < b, 0real <= p <= q, q > 0real; }
        }
    }
    pub proof fn pw_neg(a: real, n: nat)
        ensures rpow(0real - a, n) == (if n % 2 == 0 { rpow(a, n) } else { 0real - rpow(a, n) })
        decreases n
    {
        if n > 0 { pw_neg(a, (n - 1) as nat); let q = rpow(a, (n - 1) as nat); let z = 0real - a;
            assert(z * q == 0real - a * q) by (nonlinear_arith) requires z == 0real - a;
            assert(z * (0real - q) == a * q) by (nonlinear_arith) requires z == 0real - a; }
    }
    pub proof fn pw_ge(a: real, n: nat)
        requires a >= 1real, n >= 1
        ensures rpow(a, n) >= a
        decreases n
    {
        let q = rpow(a, (n - 1) as nat);
        if n > 1 { pw_ge(a, (n - 1) as nat); assert(a * q >= a) by (nonlinear_arith) requires a >= 1real, q >= 1real; }
        else { assert(q == 1real); assert(a * q == a) by (nonlinear_arith) requires q == 1real; }
    }
    pub proof fn pw_bernoulli(h: real, n: nat)
        requires h >= 0real - 1real
        ensures rpow(1real + h, n) >= 1real + (n as real) * h
        decreases n
    {
        if n > 0 {
            let m = (n - 1) as nat; pw_bernoulli(h, m);
            let q = rpow(1real + h, m); let c = m as real;
            assert((1real + h) * q >= 1real + (c + 1real) * h) by (nonlinear_arith) requires q >= 1real + c * h, h >= 0real - 1real, c >= 0real;
            assert(n as real == c + 1real);
        } else { assert(0real * h == 0real) by (nonlinear_arith); }
    }
    pub proof fn pw_inv(a: real, n: nat)
        requires a != 0real
        ensures rpow(a, n) != 0real, rpow(1real / a, n) == 1real / rpow(a, n)
    {
        let i = 1real / a;
        assert(i * a == 1real) by (nonlinear_arith) requires i == 1real / a, a != 0real;
        pw_mul(i, a, n); pw_one(n);
        let (p, q) = (rpow(i, n), rpow(a, n));
        assert(q != 0real) by (nonlinear_arith) requires p * q == 1real;
        assert(p == 1real / q) by (nonlinear_arith) requires p * q == 1real, q != 0real;
    }
    pub proof fn pw_abs(a: real, n: nat)
        ensures rabs(rpow(a, n)) == rpow(rabs(a), n),
            a < 0real && n % 2 == 1 ==> rpow(a, n) < 0real, a > 0real ==> rpow(a, n) > 0real, a != 0real ==> rpow(a, n) != 0real,
            a == 0real && n >= 1 ==> rpow(a, n) == 0real
    {
        pw_neg(0real - a, n); pw_pos(rabs(a), n);
        if a < 0real { assert(0real - (0real - a) == a); }
        if a == 0real && n >= 1 { let q = rpow(a, (n - 1) as nat); assert(a * q == 0real) by (nonlinear_arith) requires a == 0real; }
    }
    // Powers increase where they have an inverse.
    pub open spec fn side(a: real, b: real, n: nat) -> bool { n >= 1 && ((a >= 0real && b >= 0real) || (a <= 0real && b <= 0real && n % 2 == 1)) }
    pub proof fn pw_up(a: real, b: real, n: nat)
        requires side(a, b, n)
        ensures a < b ==> rpow(a, n) < rpow(b, n), a <= b ==> rpow(a, n) <= rpow(b, n), rpow(a, n) == rpow(b, n) ==> a == b
    {
        if a >= 0real && b >= 0real { if a <= b { pw_mono(a, b, n); } else { pw_mono(b, a, n); } }
        else {
            let (p, q) = (0real - a, 0real - b);
            pw_neg(p, n); pw_neg(q, n); assert(0real - p == a && 0real - q == b);
            if p <= q { pw_mono(p, q, n); } else { pw_mono(q, p, n); }
        }
    }
    pub open spec fn newton(x: real, r: real, d: nat) -> real { (r + ((d - 1) as real) * rpow(x, d)) / ((d as real) * rpow(x, (d - 1) as nat)) }
    pub proof fn newton_step(x: real, a: real, d: nat)
        requires x > 0real, a > 0real, d >= 2, rpow(x, d) >= a
        ensures ({ let y = newton(x, a, d); 0real < y <= x && rpow(y, d) >= a && (d as real) * rpow(x, (d - 1) as nat) * (x - y) == rpow(x, d) - a && (d as real) * rpow(x, (d - 1) as nat) != 0real })
    {
        let q = rpow(x, (d - 1) as nat); let p = rpow(x, d); let c = d as real; let y = newton(x, a, d);
        pw_pos(x, (d - 1) as nat); pw_pos(x, d);
        assert(p == x * q);
        let den = c * q; let num = a + (c - 1real) * p;
        assert((d - 1) as real == c - 1real);
        assert(den > 0real) by (nonlinear_arith) requires c >= 2real, q > 0real, den == c * q;
        assert(num > 0real) by (nonlinear_arith) requires c >= 2real, p > 0real, a > 0real, num == a + (c - 1real) * p;
        assert(y == num / den);
        assert(y > 0real && y * den == num) by (nonlinear_arith) requires y == num / den, den > 0real, num > 0real;
        assert(den * x == c * p) by (nonlinear_arith) requires p == x * q, den == c * q;
        assert(den * (x - y) == c * p - num) by (nonlinear_arith) requires y * den == num, den * x == c * p;
        assert(c * p - num == p - a) by (nonlinear_arith) requires num == a + (c - 1real) * p;
        assert(y <= x) by (nonlinear_arith) requires den * (x - y) == p - a, p >= a, den > 0real;
        let h = (a - p) / (c * p);
        let t = c * p;
        assert(t > 0real) by (nonlinear_arith) requires c >= 2real, p > 0real, t == c * p;
        assert(h * t == a - p) by (nonlinear_arith) requires h == (a - p) / t, t > 0real;
        assert(h >= 0real - 1real) by (nonlinear_arith) requires h * t == a - p, t == c * p, c >= 2real, p > 0real, a > 0real;
        pw_bernoulli(h, d);
        // y = x (1 + h)
        assert(x * (1real + h) == y) by {
            assert(den * (x * h) == h * t) by (nonlinear_arith) requires den * x == c * p, t == c * p;
            assert(den * (x * (1real + h)) == den * y) by (nonlinear_arith) requires den * (x * h) == a - p, den * (x - y) == p - a;
            let w = x * (1real + h);
            assert(w == y) by (nonlinear_arith) requires den * w == den * y, den > 0real;
        }
        pw_mul(x, 1real + h, d);
        let b = rpow(1real + h, d);
        assert(p * b >= a) by (nonlinear_arith) requires b >= 1real + c * h, p > 0real, h * t == a - p, t == c * p;
    }
    pub proof fn newton_stop(x: real, y: real, a: real, d: nat, e: real)
        requires x > 0real, a > 0real, d >= 2, (d as real) * rpow(x, (d - 1) as nat) * (x - y) == rpow(x, d) - a, (d as real) * (x - y) < e, e > 0real
        ensures x >= e ==> rpow(x - e, d) <= a
    {
        if x >= e {
            let q = rpow(x, (d - 1) as nat); let p = rpow(x, d); let c = d as real; let z = x - e; let w = rpow(z, (d - 1) as nat);
            pw_pos(x, (d - 1) as nat); pw_mono(z, x, (d - 1) as nat);
            let u = c * (x - y);
            assert(c * q * (x - y) == u * q) by (nonlinear_arith) requires u == c * (x - y);
            assert(u * q <= e * q) by (nonlinear_arith) requires u < e, q > 0real;
            assert(z * w <= z * q) by (nonlinear_arith) requires w <= q, z >= 0real;
            assert(z * q == x * q - e * q) by (nonlinear_arith) requires z == x - e;
        }
    }
    pub open spec fn near(x: real, a: real, d: nat, e: real) -> bool { (x >= e ==> rpow(x - e, d) <= a) && a <= rpow(x + e, d) }
    pub proof fn near_wider(x: real, a: real, d: nat, e: real, f: real)
        requires near(x, a, d, e), 0real <= e <= f, x >= 0real
        ensures near(x, a, d, f)
    {
        pw_mono(x + e, x + f, d);
        if x >= f { pw_mono(x - f, x - e, d); }
    }
    pub proof fn near_exact(x: real, d: nat, e: real)
        requires x >= 0real, e >= 0real
        ensures near(x, rpow(x, d), d, e)
    { pw_mono(x, x + e, d); if x >= e { pw_mono(x - e, x, d); } }
    // The reciprocal of a root of at least 1.
    pub proof fn near_inv(y: real, a: real, d: nat, e: real)
        requires near(y, a, d, e), y >= 1real, a >= 1real, e > 0real, d >= 1
        ensures near(1real / y, 1real / a, d, e)
    {
        let z = 1real / y; let b = 1real / a;
        assert(z * y == 1real && z > 0real && z <= 1real) by (nonlinear_arith) requires z == 1real / y, y >= 1real;
        assert(b * a == 1real && b > 0real && b <= 1real) by (nonlinear_arith) requires b == 1real / a, a >= 1real;
        let l = if y - e >= 1real { y - e } else { 1real };
        pw_one(d);
        assert(rpow(l, d) <= a);
        // (z + e) l >= 1
        let s = z + e;
        assert(s * l >= 1real) by (nonlinear_arith) requires s == z + e, z * y == 1real, z <= 1real, z > 0real, l >= 1real, y - l <= e, e > 0real;
        pw_mono(1real, s * l, d); pw_mul(s, l, d); pw_pos(l, d); pw_pos(s, d);
        let (p, q) = (rpow(s, d), rpow(l, d));
        assert(b <= p) by (nonlinear_arith) requires p * q >= 1real, q <= a, b * a == 1real, p > 0real, a >= 1real, q > 0real;
        if z >= e {
            // (y + e)^d >= a and (z - e)(y + e) <= 1
            let t = z - e; let u = y + e;
            assert(t * u <= 1real) by (nonlinear_arith) requires t == z - e, u == y + e, z * y == 1real, z <= 1real, y >= 1real, e > 0real;
            assert(t * u >= 0real) by (nonlinear_arith) requires t >= 0real, u >= 0real;
            pw_mono(t * u, 1real, d); pw_mul(t, u, d); pw_pos(t, d); pw_pos(u, d);
            let (m, n) = (rpow(t, d), rpow(u, d));
            assert(m <= b) by (nonlinear_arith) requires m * n <= 1real, n >= a, b * a == 1real, m >= 0real, a >= 1real;
        }
    }
    // ---- what `^` gives ----
    pub open spec fn root_int(k: int, r: real, d: nat) -> bool { (k >= 0 || d % 2 == 1) && rpow(k as real, d) == r }
    pub open spec fn root_rec(k: int, r: real, d: nat) -> bool { k != 0 && (k > 0 || d % 2 == 1) && rpow(1real / (k as real), d) == r }
    // x is the d-th root of r, to within e. An integer root, or the reciprocal of one, is exact.
    pub open spec fn is_root(x: real, r: real, d: nat, e: real) -> bool {
        &&& (r > 0real ==> x > 0real) && (r < 0real ==> x < 0real) && (r == 0real ==> x == 0real)
        &&& near(rabs(x), rabs(r), d, e)
        &&& (rabs(r) >= 1real ==> rabs(x) >= 1real)
        &&& (forall|k: int| #[trigger] root_int(k, r, d) ==> x == k as real)
        &&& (forall|k: int| #[trigger] root_rec(k, r, d) ==> x == 1real / (k as real))
    }
    pub open spec fn digit_unit(radix: int, p: nat) -> real { 1real / (ipow(radix, p) as real) }
    pub open spec fn pow_base(b: real, e: real) -> real { rpow(if e < 0real { 1real / b } else { b }, iabs(rn(e)) as nat) }
    pub open spec fn pow_ok(b: real, e: real, p: nat, radix: int, x: Result<BigRational, MathExecutionError>) -> bool {
        if e < 0real && b == 0real { x == Err::<BigRational, _>(MathExecutionError::DivisionByZero) }
        else {
            let r = pow_base(b, e);
            let d = rd(e) as nat;
            if d == 1 { x is Ok && (x->Ok_0)@ == r }
            else if r < 0real && d % 2 == 0 { x == Err::<BigRational, _>(MathExecutionError::ImaginaryResult) }
            else { x is Ok && is_root((x->Ok_0)@, r, d, digit_unit(radix, p)) }
        }
    }
    proof fn unit_fraction(d: int)
        requires d >= 1
        ensures rd(1real / (d as real)) == d, rn(1real / (d as real)) == 1
    {
        let x = 1real / (d as real);
        assert(x * (d as real) == 1real) by (nonlinear_arith) requires x == 1real / (d as real), d >= 1;
        assert(rd_ok(x, d));
        assert forall|e: int| rd_ok(x, e) implies d <= e by {
            let y = x * (e as real); let n = y.floor();
            assert(y * (d as real) == e as real) by (nonlinear_arith) requires y == x * (e as real), x * (d as real) == 1real;
            assert(y == n as real);
            assert(n * d == e) by (nonlinear_arith) requires (n as real) * (d as real) == e as real;
            assert(n >= 1) by (nonlinear_arith) requires n * d == e, e >= 1, d >= 1;
            assert(d <= e) by (nonlinear_arith) requires n * d == e, n >= 1, d >= 1;
        }
        lemma_rat(x);
    }
    proof fn small(x: real)
        requires is_rat(x)
        ensures (iabs(rn(x)) < rd(x)) == (rabs(x) < 1real), rd(x) >= 1
    {
        lemma_rat(x);
        let (n, d) = (rn(x) as real, rd(x) as real);
        assert(n == x * d);
        assert(rabs(x) < 1real ==> rabs(n) < d) by (nonlinear_arith) requires n == x * d, d >= 1real;
        assert(rabs(n) < d ==> rabs(x) < 1real) by (nonlinear_arith) requires n == x * d, d >= 1real;
        assert(rabs(n) == iabs(rn(x)) as real);
    }
    // The reciprocal of the root of the reciprocal.
    proof fn root_inv(y: real, r: real, d: nat, e: real)
        requires r != 0real, rabs(r) < 1real, d >= 1, e > 0real, is_root(y, 1real / r, d, e)
        ensures y != 0real, is_root(1real / y, r, d, e)
    {
        let q = 1real / r; let x = 1real / y;
        assert(q * r == 1real) by (nonlinear_arith) requires q == 1real / r, r != 0real;
        assert((q > 0real) == (r > 0real) && (q < 0real) == (r < 0real)) by (nonlinear_arith) requires q * r == 1real;
        assert(rabs(q) >= 1real) by (nonlinear_arith) requires q * r == 1real, rabs(r) < 1real;
        assert(x * y == 1real) by (nonlinear_arith) requires x == 1real / y, y != 0real;
        assert((x > 0real) == (y > 0real) && (x < 0real) == (y < 0real)) by (nonlinear_arith) requires x * y == 1real;
        let (a, b) = (rabs(y), rabs(q));
        near_inv(a, b, d, e);
        assert(rabs(x) == 1real / a) by (nonlinear_arith) requires x * y == 1real, a == rabs(y), a >= 1real;
        assert(rabs(r) == 1real / b) by (nonlinear_arith) requires q * r == 1real, b == rabs(q), b >= 1real;
        assert forall|k: int| #[trigger] root_int(k, r, d) implies x == k as real by {
            // |r| < 1 has no integer root but 0.
            pw_abs(k as real, d);
            if k != 0 { pw_ge(rabs(k as real), d); }
        }
        assert forall|k: int| #[trigger] root_rec(k, r, d) implies x == 1real / (k as real) by {
            let z = 1real / (k as real);
            assert(z != 0real) by (nonlinear_arith) requires z == 1real / (k as real), k != 0;
            pw_inv(z, d);
            assert(1real / z == k as real) by (nonlinear_arith) requires z == 1real / (k as real), k != 0, z != 0real;
            assert(root_int(k, q, d));
        }
    }
    // A root that is exact is the only one, and no reciprocal is another.
    proof fn root_exact(x: real, r: real, d: nat, e: real)
        requires rpow(x, d) == r, d >= 1, x >= 0real || d % 2 == 1, e > 0real
        ensures is_root(x, r, d, e)
    {
        pw_abs(x, d); pw_neg(rabs(x), d);
        near_exact(rabs(x), d, e);
        if rabs(r) >= 1real && rabs(x) < 1real { pw_mono(rabs(x), 1real, d); pw_one(d); }
        assert forall|k: int| #[trigger] root_int(k, r, d) implies x == k as real by { same_root(x, k as real, d); }
        assert forall|k: int| #[trigger] root_rec(k, r, d) implies x == 1real / (k as real) by {
            let z = 1real / (k as real);
            assert(k > 0 ==> z > 0real) by (nonlinear_arith) requires z == 1real / (k as real), k != 0;
            same_root(x, z, d);
        }
    }
    proof fn same_root(x: real, y: real, d: nat)
        requires rpow(x, d) == rpow(y, d), d >= 1, x >= 0real || d % 2 == 1, y >= 0real || d % 2 == 1
        ensures x == y
    {
        pw_abs(x, d); pw_abs(y, d);
        if side(x, y, d) { pw_up(x, y, d); }
    }
    // The value at a multiple of 1/d.
    pub open spec fn mv(c: int, d: nat) -> real { rpow((c as real) / (d as real), d) }
    pub open spec fn miss(c: int, r: real, d: nat) -> real { rabs(mv(c, d) - r) }
    proof fn mv_up(a: int, b: int, d: nat)
        requires side(a as real, b as real, d)
        ensures a < b ==> mv(a, d) < mv(b, d), a <= b ==> mv(a, d) <= mv(b, d), mv(a, d) == mv(b, d) ==> a == b
    {
        let c = d as real; let (x, y) = ((a as real) / c, (b as real) / c);
        assert(x * c == a as real && y * c == b as real) by (nonlinear_arith) requires x == (a as real) / c, y == (b as real) / c, c >= 1real;
        assert(a < b ==> x < y) by (nonlinear_arith) requires x * c == a as real, y * c == b as real, c >= 1real;
        assert(x < y ==> a < b) by (nonlinear_arith) requires x * c == a as real, y * c == b as real, c >= 1real;
        assert(b < a ==> y < x) by (nonlinear_arith) requires x * c == a as real, y * c == b as real, c >= 1real;
        assert(a >= 0 ==> x >= 0real) by (nonlinear_arith) requires x * c == a as real, c >= 1real;
        assert(a <= 0 ==> x <= 0real) by (nonlinear_arith) requires x * c == a as real, c >= 1real;
        assert(b >= 0 ==> y >= 0real) by (nonlinear_arith) requires y * c == b as real, c >= 1real;
        assert(b <= 0 ==> y <= 0real) by (nonlinear_arith) requires y * c == b as real, c >= 1real;
        pw_up(x, y, d);
    }
    proof fn mv_int(k: int, d: nat)
        requires d >= 1
        ensures mv(k * d, d) == rpow(k as real, d)
    {
        let c = d as real;
        assert((k * d) as real == (k as real) * c) by (nonlinear_arith) requires c == d as real;
        let x = ((k * d) as real) / c;
        assert(x == k as real) by (nonlinear_arith) requires x == ((k as real) * c) / c, c >= 1real;
    }
    // Where the root can be, in terms of multiples of 1/d: l .. h.
    pub open spec fn bracket(l: int, h: int, r: real, d: nat) -> bool {
        &&& l <= h && d >= 2
        &&& if r < 0real { h <= 0 && d % 2 == 1 && mv(l - 1, d) <= r } else { l >= 0 && mv(h + 1, d) >= r }
        &&& forall|k: int| #[trigger] root_int(k, r, d) ==> l <= k * d <= h
    }
    proof fn bracket_start(r: real, d: nat)
        requires d >= 2, r == 0real || rabs(r) >= 1real, r < 0real ==> d % 2 == 1
        ensures ({ let m = rtrunc(r * (d as real)); if r < 0real { bracket(m, 0, r, d) } else { bracket(0, m, r, d) } })
    {
        let c = d as real; let m = rtrunc(r * c);
        let a = rabs(r); let n = iabs(m);
        assert(rabs(r * c) == a * c) by (nonlinear_arith) requires a == rabs(r), c >= 2real;
        assert(n == (a * c).floor());
        assert(a * c >= 0real) by (nonlinear_arith) requires a >= 0real, c >= 2real;
        assert(n >= 0 && (n + 1) as real > a * c);
        let y = ((n + 1) as real) / c;
        assert(y > a) by (nonlinear_arith) requires y == ((n + 1) as real) / c, (n + 1) as real > a * c, c >= 2real;
        if r == 0real { pw_pos(y, d); } else { pw_ge(y, d); }
        assert(mv(n + 1, d) >= a);
        if r < 0real {
            let z = ((m - 1) as real) / c;
            assert(r * c < 0real) by (nonlinear_arith) requires r < 0real, c >= 2real;
            assert(m - 1 == 0 - (n + 1));
            assert(z == 0real - y) by (nonlinear_arith) requires y == ((n + 1) as real) / c, z == ((0 - (n + 1)) as real) / c, c >= 2real;
            pw_neg(y, d);
        }
        assert forall|k: int| #[trigger] root_int(k, r, d) implies (if r < 0real { m <= k * d <= 0 } else { 0 <= k * d <= m }) by {
            let b = iabs(k);
            pw_abs(k as real, d);
            if b >= 1 { pw_ge(b as real, d); }
            assert(b as real <= a);
            assert((b * d) as real <= a * c) by (nonlinear_arith) requires b as real <= a, c == d as real, c >= 2real;
            assert(b * d <= n);
            assert(k < 0 ==> k * d == 0 - b * d) by (nonlinear_arith) requires b == iabs(k);
            assert(k >= 0 ==> k * d == b * d) by (nonlinear_arith) requires b == iabs(k);
            assert(b * d >= 0) by (nonlinear_arith) requires b >= 0;
        }
    }
    proof fn bracket_step(l: int, h: int, g: int, r: real, d: nat)
        requires bracket(l, h, r, d), l <= g < h
        ensures miss(g, r, d) < miss(g + 1, r, d) ==> bracket(l, g, r, d),
            miss(g, r, d) >= miss(g + 1, r, d) ==> bracket(g + 1, h, r, d)
    {
        mv_up(g, g + 1, d);
        assert forall|k: int| #[trigger] root_int(k, r, d) implies (if miss(g, r, d) < miss(g + 1, r, d) { k * d <= g } else { k * d >= g + 1 }) by {
            mv_int(k, d); mv_up(k * d, g, d); mv_up(g, k * d, d); mv_up(g + 1, k * d, d); mv_up(k * d, g + 1, d);
        }
    }
    // No integer is the root if the end of the search is not it.
    proof fn bracket_end(g: int, r: real, d: nat)
        requires bracket(g, g, r, d), mv(g, d) != r
        ensures forall|k: int| !(#[trigger] root_int(k, r, d))
    {
        assert forall|k: int| !(#[trigger] root_int(k, r, d)) by { if root_int(k, r, d) { mv_int(k, d); assert(k * d == g); } }
    }
    // No reciprocal of an integer is, if the root is at least 1 and not an integer.
    proof fn no_rec(r: real, d: nat)
        requires rabs(r) >= 1real, d >= 1, forall|k: int| !(#[trigger] root_int(k, r, d))
        ensures forall|k: int| !(#[trigger] root_rec(k, r, d))
    {
        assert forall|k: int| !(#[trigger] root_rec(k, r, d)) by {
            if root_rec(k, r, d) {
                let c = k as real; let z = 1real / c;
                pw_abs(z, d); pw_one(d);
                assert(rabs(z) <= 1real) by (nonlinear_arith) requires z == 1real / c, rabs(c) >= 1real;
                if rabs(z) < 1real { pw_mono(rabs(z), 1real, d); }
                assert(k == 1 || k == -1) by (nonlinear_arith) requires z == 1real / c, c == k as real, rabs(z) >= 1real, c != 0real;
                assert(z == c) by (nonlinear_arith) requires z == 1real / c, c == 1real || c == 0real - 1real;
                assert(root_int(k, r, d));
            }
        }
    }
    // ---- Newton's steps, rounded away from zero to multiples of g ----
    pub open spec fn sgn(r: real) -> real { if r < 0real { 0real - 1real } else { 1real } }
    // How many multiples of g the iterate is away from zero.
    pub open spec fn im(x: real, r: real, g: real) -> int { (sgn(r) * x / g).floor() }
    pub open spec fn iter_ok(x: real, r: real, d: nat, g: real) -> bool {
        let y = sgn(r) * x;
        &&& d >= 2 && g > 0real && rabs(r) >= 1real && (r < 0real ==> d % 2 == 1)
        &&& y > 0real && rpow(y, d) >= rabs(r) && y == (im(x, r, g) as real) * g
    }
    pub open spec fn snap(w: real, r: real, g: real) -> real { ((if r < 0real { (w / g).floor() } else { rceil(w / g) }) as real) * g }
    proof fn snap_pos(y: real, g: real)
        requires g > 0real
        ensures ({ let n = rceil(y / g); (n as real) * g >= y && (n as real) * g < y + g && (((n as real) * g) / g).floor() == n })
    {
        let q = y / g; let n = rceil(q);
        assert(q * g == y) by (nonlinear_arith) requires q == y / g, g > 0real;
        assert(q <= n as real && (n as real) < q + 1real);
        assert((n as real) * g >= y && (n as real) * g < y + g) by (nonlinear_arith) requires q * g == y, q <= n as real, (n as real) < q + 1real, g > 0real;
        assert(((n as real) * g) / g == n as real) by (nonlinear_arith) requires g > 0real;
    }
    proof fn iter_step(x: real, r: real, d: nat, g: real)
        requires iter_ok(x, r, d, g)
        ensures (d as real) * rpow(x, (d - 1) as nat) != 0real,
            ({ let z = snap(newton(x, r, d), r, g);
            &&& iter_ok(z, r, d, g)
            &&& 0 <= im(z, r, g) <= im(x, r, g)
            &&& (im(z, r, g) == im(x, r, g) ==> z == x)
            &&& (forall|e: real| #[trigger] near(rabs(x), rabs(r), d, e) || !(z == x && e == (d as real) * g)) })
    {
        let s = sgn(r); let y = s * x; let a = rabs(r); let c = d as real;
        let w = newton(x, r, d);
        let v = newton(y, a, d);
        newton_step(y, a, d);
        let k = (d - 1) as nat;
        if r < 0real {
            pw_neg(y, d); pw_neg(y, k);
            assert(x == 0real - y) by (nonlinear_arith) requires y == s * x, s == 0real - 1real;
            let (p, q) = (rpow(y, d), rpow(y, k));
            assert(rpow(x, k) == q && rpow(x, d) == 0real - p);
            let num = a + (k as real) * p; let den = c * q;
            assert(r + (k as real) * (0real - p) == 0real - num) by (nonlinear_arith) requires num == a + (k as real) * p, r == 0real - a;
            assert((0real - num) / den == 0real - num / den) by (nonlinear_arith) requires den != 0real;
            assert(w == 0real - v);
        } else { assert(x == y) by (nonlinear_arith) requires y == s * x, s == 1real; }
        snap_pos(v, g);
        let m = im(x, r, g); let n = rceil(v / g); let t = (n as real) * g;
        let z = snap(w, r, g);
        if r < 0real {
            let u = v / g;
            assert(w / g == 0real - u) by (nonlinear_arith) requires w == 0real - v, u == v / g, g > 0real;
            let f = (w / g).floor();
            assert(n == 0 - f);
            assert(z == (f as real) * g);
            assert(z == 0real - t) by (nonlinear_arith) requires z == (f as real) * g, t == (n as real) * g, n as real == 0real - (f as real);
        } else { assert(z == t); }
        assert(s * z == t) by (nonlinear_arith) requires (s == 1real && z == t) || (s == 0real - 1real && z == 0real - t);
        assert(im(z, r, g) == n);
        assert(n >= 0) by (nonlinear_arith) requires (n as real) * g >= v, v > 0real, g > 0real;
        pw_mono(v, t, d);
        assert(n <= m) by (nonlinear_arith) requires (n as real) * g < v + g, v <= (m as real) * g, g > 0real;
        assert forall|e: real| #[trigger] near(rabs(x), rabs(r), d, e) || !(z == x && e == c * g) by {
            if z == x && e == c * g {
                assert(t == y);
                assert(c * (y - v) < e) by (nonlinear_arith) requires y < v + g, e == c * g, c >= 2real;
                assert(e > 0real) by (nonlinear_arith) requires e == c * g, c >= 2real, g > 0real;
                newton_stop(y, v, a, d, e);
                pw_mono(y, y + e, d);
                assert(rabs(x) == y);
            }
        }
    }
    // The start of the iteration: the end of the search, or one step on if that is short of the root.
    pub open spec fn first_x(g: int, r: real, d: nat) -> real {
        let x = (g as real) / (d as real);
        if rabs(rpow(x, d)) < rabs(r) { x + (if r < 0real { 0real - 1real } else if r > 0real { 1real } else { 0real }) / (d as real) } else { x }
    }
    proof fn iter_start(q: int, r: real, d: nat, n: int)
        requires bracket(q, q, r, d), mv(q, d) != r, r == 0real || rabs(r) >= 1real, n >= 1
        ensures iter_ok(first_x(q, r, d), r, d, (1real / (n as real)) / (d as real))
    {
        let c = d as real; let u = 1real / c; let l = (1real / (n as real)); let g = l / c;
        let k = iabs(q);
        if r == 0real { mv_int(0, d); assert(rpow(0real, d) == 0real) by { pw_abs(0real, d); } assert(root_int(0, r, d)); assert(0 * d == 0); assert(q == 0); assert(false); }
        assert(u * c == 1real && u > 0real) by (nonlinear_arith) requires u == 1real / c, c >= 2real;
        assert(l * (n as real) == 1real && l > 0real) by (nonlinear_arith) requires l == 1real / (n as real), n >= 1;
        assert(g * c == l && g > 0real) by (nonlinear_arith) requires g == l / c, l > 0real, c >= 2real;
        assert(u == (n as real) * g) by (nonlinear_arith) requires u * c == 1real, g * c == l, l * (n as real) == 1real, c >= 2real;
        let x0 = (q as real) / c; let x = first_x(q, r, d); let s = sgn(r);
        assert(x0 == (q as real) * u) by (nonlinear_arith) requires x0 == (q as real) / c, u == 1real / c, c >= 2real;
        let y0 = s * x0;
        let step = s / c;
        assert(step == s * u) by (nonlinear_arith) requires step == s / c, u == 1real / c, c >= 2real;
        assert(y0 == (k as real) * u) by (nonlinear_arith) requires y0 == s * x0, x0 == (q as real) * u, k == iabs(q), (s == 1real && q >= 0) || (s == 0real - 1real && q <= 0);
        pw_abs(x0, d);
        assert(y0 >= 0real) by (nonlinear_arith) requires y0 == (k as real) * u, k >= 0, u > 0real;
        assert(rabs(x0) == y0);
        let j = if rpow(y0, d) < rabs(r) { k + 1 } else { k };
        let y = s * x;
        if rpow(y0, d) < rabs(r) {
            assert(x == x0 + step);
            assert(y == y0 + u) by (nonlinear_arith) requires y == s * x, y0 == s * x0, x == x0 + step, step == s * u, s == 1real || s == 0real - 1real;
            assert(y == (j as real) * u) by (nonlinear_arith) requires y == y0 + u, y0 == (k as real) * u, j == k + 1;
            // the next multiple is not short of the root
            if r < 0real {
                let z = ((q - 1) as real) / c;
                assert(z == 0real - y) by (nonlinear_arith) requires z == ((q - 1) as real) / c, u == 1real / c, y == (j as real) * u, j == 1 - q, c >= 2real;
                pw_neg(y, d);
            } else {
                let z = ((q + 1) as real) / c;
                assert(z == y) by (nonlinear_arith) requires z == ((q + 1) as real) / c, u == 1real / c, y == (j as real) * u, j == q + 1, c >= 2real;
            }
        } else {
            assert(y == y0);
            if k == 0 { assert(y0 == 0real) by (nonlinear_arith) requires y0 == (k as real) * u, k == 0; pw_abs(y0, d); }
        }
        assert(j >= 1);
        assert(y > 0real) by (nonlinear_arith) requires y == (j as real) * u, j >= 1, u > 0real;
        let m = j * n;
        assert(m as real == (j as real) * (n as real)) by (nonlinear_arith) requires m == j * n;
        assert(y == (m as real) * g) by (nonlinear_arith) requires y == (j as real) * u, u == (n as real) * g, m as real == (j as real) * (n as real);
        assert(y / g == m as real) by (nonlinear_arith) requires y == (m as real) * g, g > 0real;
        assert(im(x, r, g) == m);
        assert(rpow(y, d) >= rabs(r));
    }
    proof fn iter_end(x: real, r: real, d: nat, g: real, p: nat, radix: int)
        requires iter_ok(x, r, d, g), snap(newton(x, r, d), r, g) == x, radix >= 2, g == digit_unit(radix, p + 1) / (d as real),
            forall|k: int| !(#[trigger] root_int(k, r, d))
        ensures is_root(x, r, d, digit_unit(radix, p))
    {
        iter_step(x, r, d, g);
        let c = d as real; let e1 = digit_unit(radix, p + 1); let e = digit_unit(radix, p);
        assert(c * g == e1) by (nonlinear_arith) requires g == e1 / c, c >= 2real;
        scale_pos(radix, p);
        let q = ipow(radix, p); let q1 = ipow(radix, p + 1);
        assert(q1 == radix * q);
        assert(q1 >= q) by (nonlinear_arith) requires q1 == radix * q, radix >= 2, q >= 1;
        assert(0real < e1 <= e) by (nonlinear_arith) requires e1 == 1real / (q1 as real), e == 1real / (q as real), q1 >= q, q >= 1;
        assert(near(rabs(x), rabs(r), d, e1));
        near_wider(rabs(x), rabs(r), d, e1, e);
        let y = sgn(r) * x;
        if y < 1real { pw_mono(y, 1real, d); pw_one(d); }
        no_rec(r, d);
    }
}
func "exponentiate" { ret r; props { C01, C02, C05 }
  spec {
    requires 2 <= radix <= 16, precision <= 510
    ensures pow_ok(base@, exponent@, precision as nat, radix as int, r)
    decreases (if pow_base(base@, exponent@) != 0real && rabs(pow_base(base@, exponent@)) < 1real { 1int } else { 0 })
  }
  entry {
    hide(is_root); hide(near); hide(rpow); hide(bracket); hide(iter_ok); hide(snap); hide(rd); hide(rn); hide(ipow); hide(im); hide(first_x);
    let ghost b0 = base@; let ghost e0 = exponent@; let ghost p0 = precision as nat; let ghost r0 = radix as int;
    proof { axiom_rational(exponent); lemma_rat(exponent@); scale_pos(r0, p0 + 1); }
  }
  after_let radicand {
    axiom_rational(radicand); small(radicand@); assert(radicand@ == pow_base(b0, e0)); assert(exp_denom@ == rd(e0));
  }
  after_let reciprocal_exponent { recip_all(b0, e0, p0, r0); }
  inline map 0 { |root: BigRational| -> (t: BigRational) requires root@ != 0real ensures t@ == 1real / root@ }
  closure f_magnitude { ret t; spec { ensures t@ == miss(x@, radicand@, degree@) } }
  closure next_x { ret t; spec { requires (degree@ as real) * rpow(x@, (degree@ - 1) as nat) != 0real ensures t@ == newton(x@, radicand@, degree@) } }
  before_let span { bracket_start(radicand@, degree@); }
  loop 0 {
    spec {
      invariant bracket(lower_bound@, upper_bound@, radicand@, degree@), span@ == upper_bound@ - lower_bound@,
        degree@ >= 2,
        forall|x: &BigInt| #[trigger] call_requires(f_magnitude, (x,)),
        forall|x: &BigInt, t: BigRational| #[trigger] call_ensures(f_magnitude, (x,), t) ==> t@ == miss(x@, radicand@, degree@)
      decreases span@
    }
  }
  after_let upper_guess { bracket_step(lower_bound@, upper_bound@, lower_guess@, radicand@, degree@); }
  after_let error { { reveal(bracket); let q = guess@;
    if mv(q, degree@) == radicand@ { unit_pos(r0, p0); exact_mult(q, radicand@, degree@, digit_unit(r0, p0)); } 
    else { bracket_end(q, radicand@, degree@); iter_start(q, radicand@, degree@, ipow(r0, p0 + 1)); reveal(first_x); } } }
  loop 1 {
    spec {
      invariant iter_ok(x@, radicand@, degree@, resolution@), resolution@ == digit_unit(r0, p0 + 1) / (degree@ as real), 
        forall|y: BigRational| (degree@ as real) * rpow(y@, (degree@ - 1) as nat) != 0real ==> #[trigger] call_requires(next_x, (y,)),
        forall|y: BigRational, t: BigRational| #[trigger] call_ensures(next_x, (y,), t) ==> t@ == newton(y@, radicand@, degree@)
      ensures iter_ok(x@, radicand@, degree@, resolution@), snap(newton(x@, radicand@, degree@), radicand@, resolution@) == x@
      decreases im(x@, radicand@, resolution@)
    }
    start { iter_step(x@, radicand@, degree@, resolution@); reveal(snap); assert(resolution@ != 0real) by { reveal(iter_ok); } }
    after { proof { iter_end(x@, radicand@, degree@, resolution@, p0, r0); } }
  }
}
items {
    pub proof fn unit_pos(radix: int, p: nat) requires radix >= 2 ensures digit_unit(radix, p) > 0real
    { scale_pos(radix, p); let n = ipow(radix, p) as real; assert(1real / n > 0real) by (nonlinear_arith) requires n >= 1real; }
    proof fn pw_once(q: real) ensures rpow(q, 1) == q { assert(rpow(q, 0) == 1real); assert(q * 1real == q); }
    proof fn exact_mult(q: int, r: real, d: nat, e: real)
        requires mv(q, d) == r, d >= 2, q >= 0 || d % 2 == 1, e > 0real
        ensures is_root((q as real) / (d as real), r, d, e)
    {
        let x = (q as real) / (d as real);
        assert(q >= 0 ==> x >= 0real) by (nonlinear_arith) requires x == (q as real) / (d as real), d >= 2;
        root_exact(x, r, d, e);
    }
}
items {
    // When the power is between -1 and 1, the root of its reciprocal gives the answer.
    proof fn recip(b: real, e: real, p: nat, radix: int, t: Result<BigRational, MathExecutionError>)
        requires is_rat(e), !(e < 0real && b == 0real), pow_base(b, e) != 0real, rabs(pow_base(b, e)) < 1real, radix >= 2,
            pow_ok(1real / pow_base(b, e), 1real / (rd(e) as real), p, radix, t)
        ensures t is Ok ==> (t->Ok_0)@ != 0real,
            forall|w: BigRational| t is Ok && #[trigger] w@ == 1real / (t->Ok_0)@ ==> pow_ok(b, e, p, radix, Ok::<BigRational, MathExecutionError>(w)),
            t is Err ==> pow_ok(b, e, p, radix, t)
    {
        let r = pow_base(b, e); let q = 1real / r; let d = rd(e); let f = 1real / (d as real);
        lemma_rat(e); unit_fraction(d);
        assert(q != 0real && rabs(q) > 1real) by (nonlinear_arith) requires q == 1real / r, r != 0real, rabs(r) < 1real;
        assert(1real / q == r) by (nonlinear_arith) requires q == 1real / r, r != 0real;
        assert((q < 0real) == (r < 0real)) by (nonlinear_arith) requires q == 1real / r, r != 0real;
        pw_once(q);
        assert(f >= 0real) by (nonlinear_arith) requires f == 1real / (d as real), d >= 1;
        assert(pow_base(q, f) == q);
        scale_pos(radix, p);
        let u = digit_unit(radix, p);
        assert(u > 0real) by (nonlinear_arith) requires u == 1real / (ipow(radix, p) as real), ipow(radix, p) >= 1;
        if t is Ok && d != 1 { root_inv((t->Ok_0)@, r, d as nat, u); }
    }
    proof fn recip_all(b: real, e: real, p: nat, radix: int)
        requires is_rat(e), !(e < 0real && b == 0real), pow_base(b, e) != 0real, rabs(pow_base(b, e)) < 1real, radix >= 2
        ensures forall|t: Result<BigRational, MathExecutionError>| #[trigger] pow_ok(1real / pow_base(b, e), 1real / (rd(e) as real), p, radix, t) ==> {
                &&& (t is Ok ==> (t->Ok_0)@ != 0real)
                &&& (forall|w: BigRational| t is Ok && #[trigger] w@ == 1real / (t->Ok_0)@ ==> pow_ok(b, e, p, radix, Ok::<BigRational, MathExecutionError>(w)))
                &&& (t is Err ==> pow_ok(b, e, p, radix, t)) },
            pow_base(1real / pow_base(b, e), 1real / (rd(e) as real)) == 1real / pow_base(b, e),
            rabs(1real / pow_base(b, e)) > 1real, rd(e) >= 1
    {
        let r = pow_base(b, e); let q = 1real / r; let d = rd(e); let f = 1real / (d as real);
        lemma_rat(e); unit_fraction(d);
        assert(q != 0real && rabs(q) > 1real) by (nonlinear_arith) requires q == 1real / r, r != 0real, rabs(r) < 1real;
        pw_once(q);
        assert(f >= 0real) by (nonlinear_arith) requires f == 1real / (d as real), d >= 1;
        assert forall|t: Result<BigRational, MathExecutionError>| #[trigger] pow_ok(q, f, p, radix, t) implies {
                &&& (t is Ok ==> (t->Ok_0)@ != 0real)
                &&& (forall|w: BigRational| t is Ok && #[trigger] w@ == 1real / (t->Ok_0)@ ==> pow_ok(b, e, p, radix, Ok::<BigRational, MathExecutionError>(w)))
                &&& (t is Err ==> pow_ok(b, e, p, radix, t)) } by { recip(b, e, p, radix, t); }
    }
}
