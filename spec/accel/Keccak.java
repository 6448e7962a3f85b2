import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluates Keccak!KeccakF through this class instead of the TLA+ text.
 *  setup.py checks that both give the same answers. */
public class Keccak {
    static final int[] RHO = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
    static final long[] RC = new long[24];
    static {
        int lfsr = 1;
        for (int r = 0; r < 24; r++) {
            for (int j = 0; j < 7; j++) {
                if ((lfsr & 1) != 0) RC[r] |= 1L << ((1 << j) - 1);
                lfsr <<= 1;
                if ((lfsr & 0x100) != 0) lfsr ^= 0x171;
            }
        }
    }

    static long[] in(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        long[] a = new long[25];
        for (int i = 0; i < 100; i++) a[i / 4] |= ((long) ((IntValue) e[i]).val) << (16 * (i % 4));
        return a;
    }
    static Value out(long[] a) {
        Value[] o = new Value[100];
        for (int i = 0; i < 100; i++) o[i] = IntValue.gen((int) ((a[i / 4] >>> (16 * (i % 4))) & 0xFFFF));
        return new TupleValue(o);
    }
    public static Value KeccakF(final Value v) {
        long[] a = in(v);
        perm(a);
        return out(a);
    }
    /** acc followed by n bytes of the stream; the new block and position. */
    public static Value SqueezeN(final Value blk, final Value vpos, final Value vn, final Value acc) {
        long[] a = in(blk);
        int pos = ((IntValue) vpos).val, n = ((IntValue) vn).val;
        Value[] h = ((TupleValue) acc.toTuple()).elems, o = java.util.Arrays.copyOf(h, h.length + n);
        for (int i = h.length; i < o.length; i++) {
            if (pos == 136) { perm(a); pos = 0; }
            o[i] = IntValue.gen((int) (a[pos / 8] >>> (8 * (pos % 8))) & 0xFF);
            pos++;
        }
        return new RecordValue(new UniqueString[] {UniqueString.of("blk"), UniqueString.of("pos"), UniqueString.of("out")},
                               new Value[] {out(a), IntValue.gen(pos), new TupleValue(o)}, false);
    }
    static void perm(long[] a) {
        long[] b = new long[25], c = new long[5];
        for (int r = 0; r < 24; r++) {
            for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            for (int i = 0; i < 25; i++) a[i] ^= c[(i + 4) % 5] ^ Long.rotateLeft(c[(i + 1) % 5], 1);
            for (int x = 0; x < 5; x++)
                for (int y = 0; y < 5; y++)
                    b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], RHO[x + 5 * y]);
            for (int y = 0; y < 25; y += 5)
                for (int x = 0; x < 5; x++) a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5]);
            a[0] ^= RC[r];
        }
    }
}
