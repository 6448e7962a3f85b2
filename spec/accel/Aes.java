import javax.crypto.Cipher;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.*;

/** TLC evaluates Aes!AesCtr through this class; setup.py checks that it
 *  agrees with the TLA+ text. */
public class Aes {
    static byte[] in(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        byte[] a = new byte[e.length];
        for (int i = 0; i < a.length; i++) a[i] = (byte) ((IntValue) e[i]).val;
        return a;
    }
    public static Value AesCtr(final Value k, final Value c, final IntValue n) {
        try {
            Cipher a = Cipher.getInstance("AES/ECB/NoPadding");
            a.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(in(k), "AES"));
            byte[] v = in(c);
            Value[] o = new Value[16 * n.val];
            for (int i = 0; i < n.val; i++) {
                for (int j = 15; j >= 0 && ++v[j] == 0; j--) { }
                byte[] b = a.doFinal(v);
                for (int j = 0; j < 16; j++) o[16 * i + j] = IntValue.gen(b[j] & 255);
            }
            return new TupleValue(o);
        } catch (java.security.GeneralSecurityException e) {
            throw new RuntimeException(e);
        }
    }
}
