import tlc2.value.impl.*;

/** TLC evaluates Poly!Ntt and Poly!Intt through this class; setup.py checks
 *  that it agrees with the TLA+ text. */
public class Poly {
    static final int Q = 12289;
    static final int[] TW = new int[1024], TWI = new int[1024];
    static int pow(int b, int e) {
        int r = 1;
        for (b %= Q; e > 0; e >>= 1, b = b * b % Q) if ((e & 1) != 0) r = r * b % Q;
        return r;
    }
    static {
        for (int m = 0; m < 1024; m++) {
            int r = Integer.reverse(m) >>> 22;
            TW[m] = pow(7, r);
            TWI[m] = pow(7, (2048 - r) % 2048);
        }
    }
    static int[] in(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int[] a = new int[e.length];
        for (int i = 0; i < a.length; i++) a[i] = Math.floorMod(((IntValue) e[i]).val, Q);
        return a;
    }
    static Value out(int[] a) {
        Value[] o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = IntValue.gen(a[i]);
        return new TupleValue(o);
    }
    public static Value Ntt(final Value v) {
        int[] a = in(v);
        int n = a.length;
        for (int m = 1; m < n; m <<= 1) {
            int ht = n / (2 * m);
            for (int i = 0; i < m; i++)
                for (int j = 2 * i * ht; j < 2 * i * ht + ht; j++) {
                    int t = a[j + ht] * TW[m + i] % Q;
                    a[j + ht] = Math.floorMod(a[j] - t, Q);
                    a[j] = (a[j] + t) % Q;
                }
        }
        return out(a);
    }
    public static Value Intt(final Value v) {
        int[] a = in(v);
        int n = a.length;
        for (int m = n / 2; m > 0; m >>= 1) {
            int ht = n / (2 * m);
            for (int i = 0; i < m; i++)
                for (int j = 2 * i * ht; j < 2 * i * ht + ht; j++) {
                    int d = Math.floorMod(a[j] - a[j + ht], Q);
                    a[j] = (a[j] + a[j + ht]) % Q;
                    a[j + ht] = d * TWI[m + i] % Q;
                }
        }
        int ni = pow(n, Q - 2);
        for (int i = 0; i < n; i++) a[i] = a[i] * ni % Q;
        return out(a);
    }
    public static Value MulZ(final Value va, final Value vb) {
        Value[] x = ((TupleValue) va.toTuple()).elems, y = ((TupleValue) vb.toTuple()).elems;
        int n = x.length;
        long[] r = new long[n];
        for (int i = 0; i < n; i++) {
            long a = ((IntValue) x[i]).val;
            if (a == 0) continue;
            for (int j = 0; j < n; j++) {
                long p = a * ((IntValue) y[j]).val;
                if (i + j < n) r[i + j] += p; else r[i + j - n] -= p;
            }
        }
        Value[] o = new Value[n];
        for (int i = 0; i < n; i++) o[i] = IntValue.gen(Math.toIntExact(r[i]));
        return new TupleValue(o);
    }
}
