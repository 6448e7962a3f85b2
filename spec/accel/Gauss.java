import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluates Gauss!GaussPoly through this class; setup.py checks that it
 *  agrees with the TLA+ text. */
public class Gauss {
    static final long[] T = {
        1283868770400643928L, 6416574995475331444L, 4078260278032692663L, 2353523259288686585L, 1227179971273316331L,
        575931623374121527L, 242543240509105209L, 91437049221049666L, 30799446349977173L, 9255276791179340L,
        2478152334826140L, 590642893610164L, 125206034929641L, 23590435911403L, 3948334035941L, 586753615614L,
        77391054539L, 9056793210L, 940121950L, 86539696L, 7062824L, 510971L, 32764L, 1862L, 94L, 4L, 0L};
    static long u64(Value[] b, int p) {
        long r = 0;
        for (int i = 7; i >= 0; i--) r = r << 8 | ((IntValue) b[p + i]).val;
        return r;
    }
    public static Value GaussPoly(final Value vb, final Value vp, final Value vn) {
        Value[] b = ((TupleValue) vb.toTuple()).elems;
        int p = ((IntValue) vp).val, n = ((IntValue) vn).val, g = 1024 / n, par = 0, u = 0;
        Value[] f = new Value[n];
        while (u < n) {
            if (p + 16 * g > b.length) { f = new Value[0]; p = -1; break; }
            int s = 0;
            for (int i = 0; i < g; i++) {
                long r = u64(b, p), q = u64(b, p + 8);
                p += 16;
                if ((r & Long.MAX_VALUE) < T[0]) continue;
                int v = 1;
                while ((q & Long.MAX_VALUE) < T[v]) v++;
                s += r < 0 ? -v : v;
            }
            if (Math.abs(s) > 127 || (u == n - 1 && ((par + s) & 1) == 0)) continue;
            par = (par + s) & 1;
            f[u++] = IntValue.gen(s);
        }
        return new RecordValue(new UniqueString[] {UniqueString.of("f"), UniqueString.of("pos")},
                               new Value[] {new TupleValue(f), IntValue.gen(p)}, false);
    }
}
