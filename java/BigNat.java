import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.value.impl.*;

/** Fast versions of the operators of BigNat.tla, on the same representation. */
public class BigNat {
    private static final BigInteger BASE = BigInteger.valueOf(10000);
    private static final BigInteger BASE4 = BigInteger.valueOf(10000000000000000L);
    private static final TupleValue EMPTY = new TupleValue(new Value[0]);
    private static final IntValue[] LIMB = new IntValue[10000];
    static { for (int i = 0; i < 10000; i++) LIMB[i] = IntValue.gen(i); }

    private static BigInteger in(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int n = e.length;
        if (n <= 4) {
            long x = 0;
            for (int i = n - 1; i >= 0; i--) x = x * 10000 + ((IntValue) e[i]).val;
            return BigInteger.valueOf(x);
        }
        BigInteger r = BigInteger.ZERO;
        int top = ((n + 3) / 4) * 4;
        for (int i = top - 4; i >= 0; i -= 4) {
            long x = 0;
            for (int j = Math.min(i + 3, n - 1); j >= i; j--) x = x * 10000 + ((IntValue) e[j]).val;
            r = r.multiply(BASE4).add(BigInteger.valueOf(x));
        }
        return r;
    }

    private static Value out(BigInteger b) {
        if (b.signum() < 0) throw new RuntimeException("BigNat: negative result");
        if (b.signum() == 0) return EMPTY;
        ArrayList<Value> l = new ArrayList<>();
        while (b.bitLength() > 62) {
            BigInteger[] q = b.divideAndRemainder(BASE4);
            long r = q[1].longValue();
            for (int i = 0; i < 4; i++) { l.add(LIMB[(int) (r % 10000)]); r /= 10000; }
            b = q[0];
        }
        long x = b.longValue();
        while (x > 0) { l.add(LIMB[(int) (x % 10000)]); x /= 10000; }
        return new TupleValue(l.toArray(new Value[0]));
    }

    private static int i(Value v) { return ((IntValue) v).val; }

    public static Value BFromInt(Value n) { return out(BigInteger.valueOf(i(n))); }
    public static Value BToInt(Value a) { return IntValue.gen(in(a).intValueExact()); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value BLt(Value a, Value b) { return in(a).compareTo(in(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BLe(Value a, Value b) { return in(a).compareTo(in(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value BAdd(Value a, Value b) { return out(in(a).add(in(b))); }
    public static Value BSub(Value a, Value b) { return out(in(a).subtract(in(b))); }
    public static Value BMul(Value a, Value b) { return out(in(a).multiply(in(b))); }
    public static Value BDivMod(Value a, Value b) {
        BigInteger[] q = in(a).divideAndRemainder(in(b));
        return new TupleValue(new Value[] { out(q[0]), out(q[1]) });
    }
    public static Value BDiv(Value a, Value b) { return out(in(a).divide(in(b))); }
    public static Value BMod(Value a, Value b) { return out(in(a).mod(in(b))); }
    public static Value BPow2(Value n) { return out(BigInteger.ONE.shiftLeft(i(n))); }
    public static Value BHalf(Value a) { return out(in(a).shiftRight(1)); }
    public static Value BModExp(Value a, Value e, Value m) { return out(in(a).modPow(in(e), in(m))); }
    public static Value BBits(Value a, Value n) {
        BigInteger x = in(a);
        Value[] r = new Value[i(n)];
        for (int k = 0; k < r.length; k++) r[k] = LIMB[x.testBit(k) ? 1 : 0];
        return new TupleValue(r);
    }
    public static Value BFromBits(Value s) {
        Value[] e = ((TupleValue) s.toTuple()).elems;
        BigInteger r = BigInteger.ZERO;
        for (int k = 0; k < e.length; k++) if (((IntValue) e[k]).val == 1) r = r.setBit(k);
        return out(r);
    }
    private static BigInteger low(Value a, Value n) {
        return in(a).and(BigInteger.ONE.shiftLeft(i(n)).subtract(BigInteger.ONE));
    }
    public static Value BAnd(Value a, Value b, Value n) { return out(low(a, n).and(low(b, n))); }
    public static Value BOr(Value a, Value b, Value n) { return out(low(a, n).or(low(b, n))); }
    public static Value BXor(Value a, Value b, Value n) { return out(low(a, n).xor(low(b, n))); }
    public static Value BDot(Value terms, Value asg, Value m) {
        Value[] e = ((TupleValue) terms.toTuple()).elems;
        TupleValue tup = asg instanceof TupleValue ? (TupleValue) asg : null;
        FcnRcdValue f = tup == null ? (FcnRcdValue) asg.toFcnRcd() : null;
        BigInteger p = in(m), r = BigInteger.ZERO;
        for (Value t : e) {
            Value[] kv = ((TupleValue) t.toTuple()).elems;
            r = r.add(in(kv[1]).multiply(in(tup != null ? tup.elems[i(kv[0]) - 1] : f.select(kv[0]))));
        }
        return out(r.mod(p));
    }
    public static Value BTerms(Value ts, Value m) {
        java.util.TreeMap<Integer, BigInteger> u = new java.util.TreeMap<>();
        BigInteger p = in(m);
        for (Value t : ((TupleValue) ts.toTuple()).elems) {
            Value[] e = ((TupleValue) t.toTuple()).elems;
            u.merge(i(e[0]), in(e[1]), (x, y) -> x.add(y).mod(p));
        }
        u.values().removeIf(x -> x.signum() == 0);
        Value[] d = new Value[u.size()], v = new Value[u.size()];
        int k = 0;
        for (java.util.Map.Entry<Integer, BigInteger> e : u.entrySet()) {
            d[k] = IntValue.gen(e.getKey());
            v[k++] = out(e.getValue());
        }
        return new FcnRcdValue(d, v, true);
    }
    public static Value BLog2(Value a) {
        BigInteger x = in(a);
        return IntValue.gen(x.signum() > 0 && x.bitCount() == 1 ? x.bitLength() - 1 : -1);
    }
    /** square roots modulo a prime, ascending (Tonelli and Shanks) */
    public static Value BSqrt(Value a, Value m) {
        BigInteger p = in(m), n = in(a), one = BigInteger.ONE, two = BigInteger.TWO;
        if (n.signum() == 0) return new TupleValue(new Value[] { EMPTY });
        BigInteger r;
        if (p.equals(two)) r = n;
        else {
            BigInteger h = p.subtract(one).shiftRight(1);
            if (!n.modPow(h, p).equals(one)) return EMPTY;
            BigInteger q = p.subtract(one);
            int s = q.getLowestSetBit();
            q = q.shiftRight(s);
            BigInteger z = two;
            while (z.modPow(h, p).equals(one)) z = z.add(one);
            BigInteger c = z.modPow(q, p), t = n.modPow(q, p);
            r = n.modPow(q.add(one).shiftRight(1), p);
            int k = s;
            while (!t.equals(one)) {
                int i = 0;
                BigInteger u = t;
                while (!u.equals(one)) { u = u.multiply(u).mod(p); i++; }
                BigInteger b = c;
                for (int j = 0; j < k - i - 1; j++) b = b.multiply(b).mod(p);
                k = i;
                c = b.multiply(b).mod(p);
                t = t.multiply(c).mod(p);
                r = r.multiply(b).mod(p);
            }
        }
        BigInteger o = p.subtract(r).mod(p);
        if (o.equals(r)) return new TupleValue(new Value[] { out(r) });
        return new TupleValue(r.compareTo(o) < 0 ? new Value[] { out(r), out(o) } : new Value[] { out(o), out(r) });
    }
}
