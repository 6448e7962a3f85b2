import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluates operators of Big.tla through this class; setup.py checks that
 *  it agrees with the TLA+ text. */
public class Big {
    static BigInteger in(Value v) {
        Value[] a = ((TupleValue) v.toTuple()).elems;
        if (a.length <= 5) {
            long r = 0;
            for (int i = a.length - 1; i >= 0; i--) r = r << 12 | ((IntValue) a[i]).val;
            return BigInteger.valueOf(r);
        }
        byte[] b = new byte[(a.length * 12 + 7) / 8 + 1];
        for (int i = 0; i < a.length; i++) {
            int x = ((IntValue) a[i]).val, p = b.length - 1 - i * 12 / 8;
            if (i % 2 == 0) { b[p] |= x & 255; b[p - 1] |= x >> 8; } else { b[p] |= (x & 15) << 4; b[p - 1] |= x >> 4; }
        }
        return new BigInteger(b);
    }
    static Value out(BigInteger x) {
        int n = (x.bitLength() + 11) / 12;
        Value[] r = new Value[n];
        if (n <= 5) {
            long v = x.longValue();
            for (int i = 0; i < n; i++, v >>= 12) r[i] = IntValue.gen((int) (v & 4095));
            return new TupleValue(r);
        }
        byte[] b = x.toByteArray();
        for (int i = 0; i < n; i++) {
            int p = b.length - 1 - i * 12 / 8, lo = b[p] & 255, hi = p > 0 ? b[p - 1] & 255 : 0;
            r[i] = IntValue.gen(i % 2 == 0 ? lo | (hi & 15) << 8 : lo >> 4 | hi << 4);
        }
        return new TupleValue(r);
    }
    static int i(Value v) { return ((IntValue) v).val; }
    public static Value BAdd(final Value a, final Value b) { return out(in(a).add(in(b))); }
    public static Value BSub(final Value a, final Value b) { return out(in(a).subtract(in(b))); }
    public static Value BMul(final Value a, final Value b) { return out(in(a).multiply(in(b))); }
    public static Value BCmp(final Value a, final Value b) { return IntValue.gen(in(a).compareTo(in(b))); }
    public static Value BShl(final Value a, final Value k) { return out(in(a).shiftLeft(i(k))); }
    public static Value BShr(final Value a, final Value k) { return out(in(a).shiftRight(i(k))); }
    public static Value BLow(final Value a, final Value k) {
        return out(in(a).and(BigInteger.ONE.shiftLeft(i(k)).subtract(BigInteger.ONE)));
    }
    public static Value BBits(final Value a) { return IntValue.gen(in(a).bitLength()); }
    public static Value BDivMod(final Value a, final Value b) {
        BigInteger[] q = in(a).divideAndRemainder(in(b));
        return new RecordValue(new UniqueString[] {UniqueString.of("q"), UniqueString.of("r")},
                               new Value[] {out(q[0]), out(q[1])}, false);
    }
}
