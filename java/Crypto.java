// TLC operator overrides for module Crypto: digests over hexadecimal byte strings.
// Keccak-256 (the original padding, as used by Ethereum) is implemented here and is
// self-tested at class load; all other digests are the JDK's.
import java.security.MessageDigest;
import tlc2.value.impl.*;

public class Crypto {
  private static final char[] HEX = "0123456789abcdef".toCharArray();
  private static final long[] RC = new long[24];
  private static final int[] ROT = new int[25];

  static {
    int lfsr = 1;
    for (int i = 0; i < 24; i++) {
      long rc = 0;
      for (int j = 0; j < 7; j++) {
        if ((lfsr & 1) != 0) rc ^= 1L << ((1 << j) - 1);
        lfsr <<= 1;
        if ((lfsr & 0x100) != 0) lfsr ^= 0x171;
      }
      RC[i] = rc;
    }
    int x = 1, y = 0;
    for (int t = 0; t < 24; t++) {
      ROT[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
      int nx = y, ny = (2 * x + 3 * y) % 5;
      x = nx; y = ny;
    }
    String empty = toHex(keccak(new byte[0]));
    String abc = toHex(keccak(new byte[] {0x61, 0x62, 0x63}));
    if (!empty.equals("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")
        || !abc.equals("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")) {
      throw new RuntimeException("Keccak self-test failed");
    }
  }

  static byte[] keccak(byte[] in) {
    final int rate = 136;
    long[] a = new long[25];
    int blocks = in.length / rate + 1;
    byte[] p = new byte[blocks * rate];
    System.arraycopy(in, 0, p, 0, in.length);
    p[in.length] ^= 0x01;
    p[p.length - 1] ^= (byte) 0x80;
    for (int b = 0; b < blocks; b++) {
      for (int i = 0; i < rate; i++) a[i / 8] ^= (p[b * rate + i] & 0xffL) << (8 * (i % 8));
      f(a);
    }
    byte[] out = new byte[32];
    for (int i = 0; i < 32; i++) out[i] = (byte) (a[i / 8] >>> (8 * (i % 8)));
    return out;
  }

  private static void f(long[] a) {
    long[] c = new long[5], b = new long[25];
    for (int r = 0; r < 24; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ Long.rotateLeft(c[(x + 1) % 5], 1);
        for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d;
      }
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++)
          b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[x + 5 * y], ROT[x + 5 * y]);
      for (int y = 0; y < 5; y++)
        for (int x = 0; x < 5; x++)
          a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
      a[0] ^= RC[r];
    }
  }

  private static String str(Value v) {
    return ((StringValue) v).val.toString();
  }

  private static byte[] fromHex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++)
      b[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4) | Character.digit(s.charAt(2 * i + 1), 16));
    return b;
  }

  private static String toHex(byte[] b) {
    char[] c = new char[b.length * 2];
    for (int i = 0; i < b.length; i++) {
      c[2 * i] = HEX[(b[i] >> 4) & 15];
      c[2 * i + 1] = HEX[b[i] & 15];
    }
    return new String(c);
  }

  public static Value Keccak(final Value s) {
    return new StringValue(toHex(keccak(fromHex(str(s)))));
  }

  public static Value Digest(final Value alg, final Value s) throws Exception {
    String name;
    switch (str(alg)) {
      case "md5": name = "MD5"; break;
      case "sha224": name = "SHA-224"; break;
      case "sha256": name = "SHA-256"; break;
      case "sha384": name = "SHA-384"; break;
      case "sha512": name = "SHA-512"; break;
      case "sha3_224": name = "SHA3-224"; break;
      case "sha3_256": name = "SHA3-256"; break;
      case "sha3_384": name = "SHA3-384"; break;
      case "sha3_512": name = "SHA3-512"; break;
      default: throw new RuntimeException("unknown digest " + str(alg));
    }
    return new StringValue(toHex(MessageDigest.getInstance(name).digest(fromHex(str(s)))));
  }

  // Cat(<<s1, ..., sn>>): one concatenation, so that TLC does not intern every prefix.
  public static Value Cat(final Value seq) {
    TupleValue t = (TupleValue) seq.toTuple();
    StringBuilder b = new StringBuilder();
    for (Value v : t.elems) b.append(str(v));
    return new StringValue(b.toString());
  }
}
