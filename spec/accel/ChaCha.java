import tlc2.value.impl.*;

/** TLC evaluates ChaCha!CRefillBuf through this class; setup.py checks that
 *  it agrees with the TLA+ text. */
public class ChaCha {
    static int word(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        return (((IntValue) e[0]).val << 16) | ((IntValue) e[1]).val;
    }
    static void q(int[] x, int a, int b, int c, int d) {
        x[a] += x[b]; x[d] = Integer.rotateLeft(x[d] ^ x[a], 16);
        x[c] += x[d]; x[b] = Integer.rotateLeft(x[b] ^ x[c], 12);
        x[a] += x[b]; x[d] = Integer.rotateLeft(x[d] ^ x[a], 8);
        x[c] += x[d]; x[b] = Integer.rotateLeft(x[b] ^ x[c], 7);
    }
    public static Value CRefillBuf(final Value s, final Value c) {
        Value[] sw = ((TupleValue) s.toTuple()).elems, cw = ((TupleValue) c.toTuple()).elems;
        long ctr = (word(cw[0]) & 0xffffffffL) | ((long) word(cw[1]) << 32);
        int[] st = new int[16], x = new int[16];
        Value[] o = new Value[512];
        for (int u = 0; u < 8; u++, ctr++) {
            st[0] = 0x61707865; st[1] = 0x3320646e; st[2] = 0x79622d32; st[3] = 0x6b206574;
            for (int i = 0; i < 12; i++) st[4 + i] = word(sw[i]);
            st[14] ^= (int) ctr;
            st[15] ^= (int) (ctr >>> 32);
            System.arraycopy(st, 0, x, 0, 16);
            for (int r = 0; r < 10; r++) {
                q(x, 0, 4, 8, 12); q(x, 1, 5, 9, 13); q(x, 2, 6, 10, 14); q(x, 3, 7, 11, 15);
                q(x, 0, 5, 10, 15); q(x, 1, 6, 11, 12); q(x, 2, 7, 8, 13); q(x, 3, 4, 9, 14);
            }
            for (int i = 0; i < 16; i++) {
                int w = x[i] + st[i];
                for (int b = 0; b < 4; b++) o[4 * u + 32 * i + b] = IntValue.gen((w >>> (8 * b)) & 255);
            }
        }
        return new TupleValue(o);
    }
}
