import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Collections;
import java.util.IdentityHashMap;
import java.util.Map;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluates the operators of Geo.tla marked (J) with the same results and wider integers. */
public class Geo {
    private static final ThreadLocal<Map<Value, int[]>> CACHE = ThreadLocal.withInitial(IdentityHashMap::new);

    private static int i(Value v) { return ((IntValue) v).val; }
    private static TupleValue tup(Value v) {
        return v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    }

    /** All numbers of a sequence of tuples of n numbers; kept while the same value object is used again */
    private static int[] flat(Value v, int n) {
        Map<Value, int[]> cache = CACHE.get();
        int[] r = cache.get(v);
        if (r != null) return r;
        TupleValue t = tup(v);
        r = new int[t.elems.length * n];
        for (int k = 0; k < t.elems.length; k++) {
            TupleValue p = tup(t.elems[k]);
            for (int j = 0; j < n; j++) r[k * n + j] = i(p.elems[j]);
        }
        if (cache.size() > 4000) cache.clear();
        cache.put(v, r);
        return r;
    }

    private static boolean near(long ax, long ay, long bx, long by, long qx, long qy, long d) {
        if (d < 0) return false;
        // cheap exclusion
        if (qx < Math.min(ax, bx) - d || qx > Math.max(ax, bx) + d || qy < Math.min(ay, by) - d || qy > Math.max(ay, by) + d)
            return false;
        long vx = bx - ax, vy = by - ay, wx = qx - ax, wy = qy - ay;
        long t = wx * vx + wy * vy, l = vx * vx + vy * vy;
        if (t <= 0) return wx * wx + wy * wy <= d * d;
        if (t >= l) return (qx - bx) * (qx - bx) + (qy - by) * (qy - by) <= d * d;
        long c = vx * wy - vy * wx;
        double x = (double) c * (double) c, y = (double) d * (double) d * (double) l;
        if (Math.abs(x - y) > 1e-9 * Math.max(x, y)) return x < y;
        BigInteger C = BigInteger.valueOf(c);
        return C.multiply(C).compareTo(BigInteger.valueOf(d).multiply(BigInteger.valueOf(d)).multiply(BigInteger.valueOf(l))) <= 0;
    }

    public static Value SegNear(Value a, Value b, Value q, Value d) {
        TupleValue A = tup(a), B = tup(b), Q = tup(q);
        return near(i(A.elems[0]), i(A.elems[1]), i(B.elems[0]), i(B.elems[1]), i(Q.elems[0]), i(Q.elems[1]), i(d))
                ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value PolyNear(Value P, Value q, Value d) {
        int[] p = flat(P, 2);
        TupleValue Q = tup(q);
        long x = i(Q.elems[0]), y = i(Q.elems[1]), dd = i(d);
        int n = p.length / 2;
        for (int k = 0; k < n; k++) {
            int m = (k + 1) % n;
            if (near(p[2 * k], p[2 * k + 1], p[2 * m], p[2 * m + 1], x, y, dd)) return BoolValue.ValTrue;
        }
        return BoolValue.ValFalse;
    }

    public static Value PathNear(Value S, Value q, Value d) {
        int[] p = flat(S, 4);
        TupleValue Q = tup(q);
        long x = i(Q.elems[0]), y = i(Q.elems[1]), dd = i(d);
        for (int k = 0; k < p.length; k += 4)
            if (near(p[k], p[k + 1], p[k + 2], p[k + 3], x, y, dd)) return BoolValue.ValTrue;
        return BoolValue.ValFalse;
    }

    public static Value In(Value P, Value q) {
        int[] p = flat(P, 2);
        TupleValue Q = tup(q);
        long x = i(Q.elems[0]), y = i(Q.elems[1]);
        int n = p.length / 2;
        boolean in = false;
        for (int k = 0; k < n; k++) {
            int m = (k + 1) % n;
            long ax = p[2 * k], ay = p[2 * k + 1], bx = p[2 * m], by = p[2 * m + 1];
            if ((ay > y) == (by > y)) continue;
            long c = (bx - ax) * (y - ay) - (by - ay) * (x - ax);
            if (by > ay ? c > 0 : c < 0) in = !in;
        }
        return in ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value Milled(Value h, Value pts, Value a, Value b, Value r, Value z) {
        int[] p = flat(pts, 2);
        Value[] H = heights(h, p.length / 2), out = H.clone();
        TupleValue A = tup(a), B = tup(b);
        long ax = i(A.elems[0]), ay = i(A.elems[1]), bx = i(B.elems[0]), by = i(B.elems[1]), rr = i(r);
        int zz = i(z);
        IntValue Z = IntValue.gen(zz);
        for (int k = 0; k < out.length; k++)
            if (i(H[k]) > zz && near(ax, ay, bx, by, p[2 * k], p[2 * k + 1], rr)) out[k] = Z;
        return new TupleValue(out);
    }

    private static Value[] heights(Value h, int n) {
        TupleValue t = tup(h);
        if (t.elems.length != n) throw new IllegalArgumentException("heights and points differ in number");
        return t.elems;
    }

    public static Value Engaged(Value h, Value pts, Value a, Value b, Value r, Value z, Value drop) {
        int[] p = flat(pts, 2);
        Value[] H = heights(h, p.length / 2);
        TupleValue A = tup(a), B = tup(b);
        long ax = i(A.elems[0]), ay = i(A.elems[1]), bx = i(B.elems[0]), by = i(B.elems[1]), rr = i(r);
        int zz = i(z), dd = i(drop);
        ArrayList<Value> out = new ArrayList<>();
        for (int k = 0; k < H.length; k++)
            if (i(H[k]) - zz > dd && near(ax, ay, bx, by, p[2 * k], p[2 * k + 1], rr)) out.add(IntValue.gen(k + 1));
        return new SetEnumValue(out.toArray(new Value[0]), true);
    }

    public static Value Nearer(Value p, Value a, Value b, Value m) {
        BigInteger A = dist2(tup(p), tup(a)), B = dist2(tup(p), tup(b)), M = BigInteger.valueOf((long) i(m) * i(m));
        BigInteger r = B.subtract(A).subtract(M);
        return r.signum() > 0 && r.multiply(r).compareTo(BigInteger.valueOf(4).multiply(M).multiply(A)) > 0
                ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static BigInteger dist2(TupleValue p, TupleValue q) {
        long x = (long) i(p.elems[0]) - i(q.elems[0]), y = (long) i(p.elems[1]) - i(q.elems[1]);
        return BigInteger.valueOf(x * x + y * y);
    }
}
