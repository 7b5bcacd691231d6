"""Bitwise operations against Python's unbounded two's complement integers."""
from vlib import Case
from numgen import *

TECHNIQUE = "monitored execution of generated calls with a differential oracle (Python two's complement integers)"
NOTE = "Held on the generated calls only; operands up to 300 bits, positions up to 200; trusts Python's integers."
RULE = ("every procedure of the bitwise libraries (SRFI 151 names and the SRFI 143 fixnum versions) on operands around word boundaries, negative, large, "
        "all shift directions and counts including 31..33, 63..65, fields crossing words and beyond the operand's length; distinct by text")


def op(rng):
    k = rng.random()
    if k < 0.25:
        return rng.choice((1, -1)) * (1 << rng.choice((0, 1, 7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 62, 63, 64, 65, 127, 128))) + rng.choice((-1, 0, 1))
    if k < 0.45:
        return rng.randint(-70, 70)
    return integer(rng, 250)


def bl(v):
    return "(%s)" % " ".join("#t" if x else "#f" for x in v)


def bit_count(i):
    return bin(i).count("1") if i >= 0 else bin(~i).count("1")


def width(i):
    return (i if i >= 0 else ~i).bit_length()


def cases(rng, n):
    out = []

    def add(e, v, tag):
        if isinstance(v, bool):
            v = "#t" if v else "#f"
        out.append(Case(e, str(v), tag))

    for i in range(n):
        a, c, m = op(rng), op(rng), op(rng)
        ns = [op(rng) for _ in range(rng.choice((0, 1, 2, 2, 3, 4)))]
        s = " ".join(map(str, ns))
        va, vo, vx = -1, 0, 0
        for x in ns:
            va &= x; vo |= x; vx ^= x
        veq = -1
        for x in ns:
            veq = ~(veq ^ x)
        add("(list (bitwise-and %s) (bitwise-ior %s) (bitwise-xor %s) (bitwise-eqv %s))" % (s, s, s, s), "(%d %d %d %d)" % (va, vo, vx, veq), "logic n-ary")
        add("(list (bitwise-not %d) (bitwise-nand %d %d) (bitwise-nor %d %d) (bitwise-andc1 %d %d) (bitwise-andc2 %d %d) (bitwise-orc1 %d %d) (bitwise-orc2 %d %d))" % (a, a, c, a, c, a, c, a, c, a, c, a, c),
            "(%d %d %d %d %d %d %d)" % (~a, ~(a & c), ~(a | c), ~a & c, a & ~c, ~a | c, a | ~c), "logic")
        add("(bitwise-if %d %d %d)" % (m, a, c), (m & a) | (~m & c), "if")
        k = rng.choice((0, 1, 2, 5, 30, 31, 32, 33, 62, 63, 64, 65, 100, rng.randint(0, 200)))
        add("(list (arithmetic-shift %d %d) (arithmetic-shift %d %d))" % (a, k, a, -k), "(%d %d)" % (a << k, a >> k), "shift")
        add("(let ((x (arithmetic-shift %d %d))) (list (eqv? x %d) (eqv? (arithmetic-shift x %d) %d) (exact-integer? x)))" % (a, k, a << k, -k, a), "(#t #t #t)", "shift eqv")
        add("(list (bit-count %d) (integer-length %d))" % (a, a), "(%d %d)" % (bit_count(a), width(a)), "count")
        fsb = -1 if a == 0 else (a & -a).bit_length() - 1
        add("(first-set-bit %d)" % a, fsb, "first-set-bit")
        ix = rng.choice((0, 1, 30, 31, 32, 62, 63, 64, rng.randint(0, 120)))
        bit = bool((a >> ix) & 1)
        set1, clr = a | (1 << ix), a & ~(1 << ix)
        add("(list (bit-set? %d %d) (copy-bit %d %d #t) (copy-bit %d %d #f))" % (ix, a, ix, a, ix, a), "(%s %d %d)" % (b(bit), set1, clr), "single bit")
        jx = rng.choice((ix, 0, 1, 31, 32, rng.randint(0, 120)))
        bj = (a >> jx) & 1
        sw = a & ~(1 << ix) & ~(1 << jx)
        sw |= (bj << ix) | (int(bit) << jx)
        if ix == jx:
            sw = a
        add("(bit-swap %d %d %d)" % (ix, jx, a), sw, "swap")
        t = rng.choice((op(rng), abs(op(rng)), 1 << ix, a & op(rng)))
        add("(list (any-bit-set? %d %d) (every-bit-set? %d %d))" % (t, a, t, a), "(%s %s)" % (b(t & a != 0), b(t & a == t)), "test bits")
        st = rng.choice((0, 0, 1, 5, 30, 31, 32, 60, 64, rng.randint(0, 100)))
        w = rng.choice((0, 1, 2, 8, 31, 32, 33, 63, 64, rng.randint(0, 80)))
        en = st + w
        mask = (1 << w) - 1
        f = (a >> st) & mask
        add("(list (bit-field %d %d %d) (bit-field-any? %d %d %d) (bit-field-every? %d %d %d))" % (a, st, en, a, st, en, a, st, en),
            "(%d %s %s)" % (f, b(f != 0), b(f == mask)), "field read")
        base = a & ~(mask << st)
        add("(list (bit-field-clear %d %d %d) (bit-field-set %d %d %d) (bit-field-replace %d %d %d %d) (bit-field-replace-same %d %d %d %d))" % (a, st, en, a, st, en, a, c, st, en, a, c, st, en),
            "(%d %d %d %d)" % (base, base | mask << st, base | (c & mask) << st, base | (c & (mask << st))), "field write")
        if w:
            cnt = rng.choice((0, 1, -1, w - 1, w, w + 1, -w, rng.randint(-100, 100)))
            r = cnt % w
            rot = ((f << r) | (f >> (w - r))) & mask
            rev = int(format(f, "0%db" % w)[::-1], 2)
            add("(list (bit-field-rotate %d %d %d %d) (bit-field-reverse %d %d %d))" % (a, cnt, st, en, a, st, en),
                "(%d %d)" % (base | rot << st, base | rev << st), "rotate")
        p = abs(a) if rng.random() < 0.7 else abs(rng.randint(0, 300))
        bits = [(p >> j) & 1 for j in range(p.bit_length())]
        ln = rng.choice((0, 1, 3, p.bit_length(), p.bit_length() + 3, rng.randint(0, 70)))
        nb = [(a >> j) & 1 for j in range(ln)]
        add("(list (bits->list %d) (vector->list (bits->vector %d)) (bits->list %d %d) (vector->list (bits->vector %d %d)))" % (p, p, a, ln, a, ln),
            "(%s %s %s %s)" % (bl(bits), bl(bits), bl(nb), bl(nb)), "to list")
        v = sum(x << j for j, x in enumerate(nb))
        add("(list (list->bits '%s) (vector->bits '#%s) (bits %s))" % (bl(nb), bl(nb), bl(nb)[1:-1]), "(%d %d %d)" % (v, v, v), "from list")
        add("(bitwise-fold cons '() %d)" % p, bl(bits[::-1]), "fold")
        add("(let ((r '())) (bitwise-for-each (lambda (b) (set! r (cons b r))) %d) r)" % p, bl(bits[::-1]), "for-each")
        ln2 = rng.randint(0, 70)
        add("(bitwise-unfold (lambda (i) (= i %d)) (lambda (i) (bit-set? i %d)) (lambda (i) (+ i 1)) 0)" % (ln2, a), a & ((1 << ln2) - 1), "unfold")
        add("(let ((g (make-bitwise-generator %d))) (let loop ((i 0) (r '())) (if (= i %d) (reverse r) (loop (+ i 1) (cons (g) r)))))" % (a, ln), bl(nb), "generator")
        # fixnum versions
        x, y, z = (rng.choice((rng.randint(-2**31, 2**31 - 1), rng.randint(-9, 9), 2**31 - 1, -2**31, 0)) for _ in range(3))
        def carry(v):
            r = (v + 2**31) % 2**32 - 2**31
            return "(%d %d)" % (r, (v - r) >> 32)
        add("(list (call-with-values (lambda () (fx+/carry %d %d %d)) list) (call-with-values (lambda () (fx-/carry %d %d %d)) list) (call-with-values (lambda () (fx*/carry %d %d %d)) list))" % ((x, y, z) * 3),
            "(%s %s %s)" % (carry(x + y + z), carry(x - y - z), carry(x * y + z)), "fx carry")
        sh = rng.randint(0, 30)
        add("(list (fxnot %d) (fxand %d %d) (fxior %d %d) (fxxor %d %d) (fxarithmetic-shift-right %d 0) (fxarithmetic-shift %d %d) (fxlength %d) (fxbit-count %d) (fxif %d %d %d) (fxbit-set? %d %d) (fxfirst-set-bit %d))" % (
            x, x, y, x, y, x, y, x, x, -sh, x, x, x, y, z, sh, x, x),
            "(%d %d %d %d %d %d %d %d %d %s %d)" % (~x, x & y, x | y, x ^ y, x, x >> sh, width(x), bit_count(x), (x & y) | (~x & z), b((x >> sh) & 1), -1 if x == 0 else (x & -x).bit_length() - 1), "fx")
    return out


def run(ck):
    ck.run_known()
    ck.run_cases(cases(ck.rng, ck.n(1500, 25000)))
