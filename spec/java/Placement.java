import java.math.BigInteger;
import java.util.IdentityHashMap;
import java.util.Map;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluates the operators of Placement.tla marked (J) with the same results and wider integers. */
public class Placement {
    private static final ThreadLocal<Map<Value, int[]>> CACHE = ThreadLocal.withInitial(IdentityHashMap::new);

    private static int i(Value v) { return ((IntValue) v).val; }
    private static TupleValue tup(Value v) {
        return v instanceof TupleValue ? (TupleValue) v : (TupleValue) v.toTuple();
    }

    private static int[] cuts(Value v) {
        Map<Value, int[]> cache = CACHE.get();
        int[] r = cache.get(v);
        if (r != null) return r;
        TupleValue t = tup(v);
        r = new int[t.elems.length * 8];
        for (int k = 0; k < t.elems.length; k++) {
            TupleValue p = tup(t.elems[k]);
            for (int j = 0; j < 8; j++) r[k * 8 + j] = i(p.elems[j]);
        }
        if (cache.size() > 400) cache.clear();
        cache.put(v, r);
        return r;
    }

    private static boolean near(int[] s, int k, long qx, long qy, long qz, long d) {
        long ax = s[k], ay = s[k + 1], az = s[k + 2], bx = s[k + 3], by = s[k + 4], bz = s[k + 5];
        if (qx < Math.min(ax, bx) - d || qx > Math.max(ax, bx) + d || qy < Math.min(ay, by) - d || qy > Math.max(ay, by) + d
                || qz < Math.min(az, bz) - d || qz > Math.max(az, bz) + d) return false;
        long vx = bx - ax, vy = by - ay, vz = bz - az, wx = qx - ax, wy = qy - ay, wz = qz - az;
        long t = wx * vx + wy * vy + wz * vz, l = vx * vx + vy * vy + vz * vz;
        if (t <= 0) return wx * wx + wy * wy + wz * wz <= d * d;
        if (t >= l) return (qx - bx) * (qx - bx) + (qy - by) * (qy - by) + (qz - bz) * (qz - bz) <= d * d;
        long cx = wy * vz - wz * vy, cy = wz * vx - wx * vz, cz = wx * vy - wy * vx;
        double x = (double) cx * cx + (double) cy * cy + (double) cz * cz, y = (double) d * d * l;
        if (Math.abs(x - y) > 1e-9 * Math.max(x, y)) return x < y;
        BigInteger X = sq(cx).add(sq(cy)).add(sq(cz));
        return X.compareTo(BigInteger.valueOf(d * d).multiply(BigInteger.valueOf(l))) <= 0;
    }

    private static BigInteger sq(long v) { return BigInteger.valueOf(v).multiply(BigInteger.valueOf(v)); }

    private static boolean any(int[] s, long x, long y, long z, int f, int r, long d) {
        for (int k = 0; k < s.length; k += 8)
            if ((f == 0 || s[k + 6] == f) && (r == -1 || s[k + 7] == r) && near(s, k, x, y, z, d)) return true;
        return false;
    }

    public static Value CutNear(Value S, Value q, Value f, Value r, Value d) {
        TupleValue Q = tup(q);
        return any(cuts(S), i(Q.elems[0]), i(Q.elems[1]), i(Q.elems[2]), i(f), i(r), i(d)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    public static Value CutCovers(Value S, Value a, Value b, Value n, Value f, Value r, Value d) {
        int[] s = cuts(S);
        TupleValue A = tup(a), B = tup(b);
        int N = i(n), ff = i(f), rr = i(r), dd = i(d);
        long[] p = new long[3];
        for (int k = 0; k <= N; k++) {
            for (int j = 0; j < 3; j++) {
                long u = i(A.elems[j]), v = i(B.elems[j]);
                p[j] = u + Math.floorDiv((v - u) * k, (long) N);
            }
            if (!any(s, p[0], p[1], p[2], ff, rr, dd)) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
}
