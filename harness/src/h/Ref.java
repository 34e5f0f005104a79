package h;

import sym.Sym;

/** Reference semantics shared by the harnesses, written from the property texts. */
final class Ref {
  private Ref() {}

  static final int MAX = 65536;
  /** flag set as a bit mask */
  static final int MINUS = 1, PLUS = 2, SPACE = 4, ALT = 8, ZERO = 16;

  static String flags(int mask) {
    StringBuilder sb = new StringBuilder();
    if ((mask & MINUS) != 0) sb.append('-');
    if ((mask & PLUS) != 0) sb.append('+');
    if ((mask & SPACE) != 0) sb.append(' ');
    if ((mask & ALT) != 0) sb.append('#');
    if ((mask & ZERO) != 0) sb.append('0');
    return sb.toString();
  }

  static boolean has(int mask, int f) {
    return (mask & f) != 0;
  }

  /** body padded with spaces to the width (width < 0: none) */
  static String pad(String body, int mask, int width) {
    StringBuilder sb = new StringBuilder();
    if (!has(mask, MINUS)) Sym.rep(sb, ' ', width - body.length());
    sb.append(body);
    if (has(mask, MINUS)) Sym.rep(sb, ' ', width - body.length());
    return sb.toString();
  }

  static String sign(boolean neg, int mask) {
    return neg ? "-" : has(mask, PLUS) ? "+" : has(mask, SPACE) ? " " : "";
  }

  /** head + digits padded with zeros between them or spaces outside */
  static String number(String head, String digits, int mask, int width, boolean zeroFill) {
    if (zeroFill && has(mask, ZERO) && !has(mask, MINUS)) {
      StringBuilder sb = new StringBuilder(head);
      Sym.rep(sb, '0', width - head.length() - digits.length());
      return sb.append(digits).toString();
    }
    return pad(head + digits, mask, width);
  }

  /** digits padded with zeros to the precision; zero with precision 0 has no digits */
  static String digits(String digits, boolean zero, int prec) {
    if (zero && prec == 0) return "";
    StringBuilder sb = new StringBuilder();
    Sym.rep(sb, '0', prec - digits.length());
    return sb.append(digits).toString();
  }

  /** %d for a value with the given sign and magnitude digits; width and prec are -1 when absent */
  static String decimal(boolean neg, String mag, boolean zero, int mask, int width, int prec) {
    return number(sign(neg, mask), digits(mag, zero, prec), mask, width, prec < 0);
  }

  /** conversion text with optional '*' width and precision */
  static String directive(int mask, boolean w, boolean p, char conv) {
    return "%" + flags(mask) + (w ? "*" : "") + (p ? ".*" : "") + conv;
  }

  static String magnitude(long v) {
    if (v == Long.MIN_VALUE) return "9223372036854775808";
    return Long.toString(v < 0 ? -v : v);
  }

  // ---------------------------------------------------------------- decimal floating point
  // A positive value is given as f * 10^e where f has exactly n decimal digits; n and e are concrete.

  static long pow10(int n) {
    long r = 1;
    for (int i = 0; i < n; i++) r *= 10;
    return r;
  }

  /** f / 10^drop rounded half up: floor(x + 1/2) */
  static long round(long f, int drop) {
    if (drop == 0) return f;
    long d = pow10(drop);
    return (f + d / 2) / d;
  }

  static void zeros(StringBuilder sb, int n) {
    Sym.rep(sb, '0', n);
  }

  /** integer digits, point and exactly prec fraction digits */
  static String plain(long f, int n, int e, int prec, boolean alt) {
    int k = n + e;
    StringBuilder ip = new StringBuilder(), fp = new StringBuilder();
    if (prec >= -e) {
      String d = Long.toString(f);
      if (e >= 0) {
        ip.append(d);
        zeros(ip, e);
        zeros(fp, prec);
      } else if (k > 0) {
        ip.append(d, 0, k);
        fp.append(d, k, n);
        zeros(fp, prec + e);
      } else {
        ip.append('0');
        zeros(fp, -k);
        fp.append(d);
        zeros(fp, prec + e);
      }
    } else if (k + prec < 0) {
      ip.append('0');
      zeros(fp, prec);
    } else {
      String d = Long.toString(round(f, -e - prec));
      StringBuilder sb = new StringBuilder();
      zeros(sb, prec + 1 - d.length());
      String t = sb.append(d).toString();
      ip.append(t, 0, t.length() - prec);
      fp.append(t, t.length() - prec, t.length());
    }
    if (prec > 0 || alt) ip.append('.');
    return ip.append(fp).toString();
  }

  static String exponent(int x) {
    int a = x < 0 ? -x : x;
    return (x < 0 ? "-" : "+") + (a < 10 ? "0" : "") + a;
  }

  /** normalised mantissa with prec fraction digits, 'e' and the exponent */
  static String scientific(long f, int n, int e, int prec, boolean alt) {
    int x = n + e - 1;
    StringBuilder d = new StringBuilder();
    if (prec + 1 >= n) {
      d.append(Long.toString(f));
      zeros(d, prec + 1 - n);
    } else {
      long r = round(f, n - prec - 1);
      if (r == pow10(prec + 1)) {
        r = r / 10;
        x++;
      }
      d.append(Long.toString(r));
    }
    String t = d.toString();
    StringBuilder sb = new StringBuilder();
    sb.append(t, 0, 1);
    if (prec > 0 || alt) sb.append('.');
    return sb.append(t, 1, t.length()).append('e').append(exponent(x)).toString();
  }

  static int trimmed(String t, int min) {
    int m = t.length();
    while (m > min && t.charAt(m - 1) == '0') m--;
    return m;
  }

  /** %g with p > 0 significant digits */
  static String general(long f, int n, int e, int p, boolean alt) {
    int x = n + e - 1;
    long r = f;
    int m = n;
    if (p < n) {
      r = round(f, n - p);
      m = p;
      if (r == pow10(p)) {
        r = r / 10;
        x++;
      }
    }
    String d = Long.toString(r); // m significant digits, first one at 10^x
    StringBuilder sb = new StringBuilder();
    if (x >= -4 && x < p) {
      StringBuilder ip = new StringBuilder(), fp = new StringBuilder();
      if (x < 0) {
        ip.append('0');
        zeros(fp, -x - 1);
        fp.append(d);
      } else if (x + 1 >= m) {
        ip.append(d);
        zeros(ip, x + 1 - m);
      } else {
        ip.append(d, 0, x + 1);
        fp.append(d, x + 1, m);
      }
      if (alt) {
        int have = x < 0 || x + 1 < m ? m : x + 1;
        sb.append(ip).append('.').append(fp);
        zeros(sb, p - have);
      } else {
        String t = fp.toString();
        int len = trimmed(t, 0);
        sb.append(ip);
        if (len > 0) sb.append('.').append(t, 0, len);
      }
    } else {
      sb.append(d, 0, 1);
      if (alt) {
        if (p > 1) sb.append('.');
        sb.append(d, 1, m);
        zeros(sb, p - m);
      } else {
        int len = trimmed(d, 1);
        if (len > 1) sb.append('.').append(d, 1, len);
      }
      sb.append('e').append(exponent(x));
    }
    return sb.toString();
  }

  static String zero(char conv, int prec, boolean alt) {
    StringBuilder sb = new StringBuilder("0");
    if (conv == 'g') {
      if (alt) {
        sb.append('.');
        zeros(sb, prec - 1);
      }
      return sb.toString();
    }
    if (prec > 0 || alt) sb.append('.');
    zeros(sb, prec);
    if (conv == 'e') sb.append("e+00");
    return sb.toString();
  }

  static String body(char conv, long f, int n, int e, int prec, boolean alt) {
    if (conv == 'f') return plain(f, n, e, prec < 0 ? 6 : prec, alt);
    if (conv == 'e') return scientific(f, n, e, prec < 0 ? 6 : prec, alt);
    return general(f, n, e, prec < 0 ? 6 : prec == 0 ? 1 : prec, alt);
  }

  static String zeroBody(char conv, int prec, boolean alt) {
    int p = prec < 0 ? 6 : prec;
    if (conv == 'g' && p == 0) p = 1;
    return zero(conv, p, alt);
  }

  /**
   * The value 0.d1d2d3... * 10^k, d1 not 0, printed by %f, %e or %g with precision p (already
   * defaulted); rounding works on the digit text.
   */
  static String digitString(char conv, String d, int k, int p, boolean alt) {
    // number of digits kept
    int keep = conv == 'f' ? k + p : conv == 'e' ? p + 1 : p;
    if (keep < 0) d = "";
    else if (keep < d.length()) {
      boolean up = d.charAt(keep) >= '5';
      d = d.substring(0, keep);
      if (up) {
        int i = keep - 1;
        while (i >= 0 && d.charAt(i) == '9') i--;
        StringBuilder sb = new StringBuilder();
        if (i < 0) {
          sb.append('1');
          k++;
        } else {
          sb.append(d, 0, i);
          sb.append((char) (d.charAt(i) + 1));
        }
        zeros(sb, keep - 1 - i);
        if (i < 0 && conv != 'f') sb.setLength(keep);
        d = sb.toString();
      }
    }
    StringBuilder ip = new StringBuilder(), fp = new StringBuilder();
    boolean plain = conv == 'f' || conv == 'g' && k - 1 >= -4 && k - 1 < p;
    int frac = conv == 'f' ? p : conv == 'e' ? p : plain ? p - k : p - 1;
    int point = plain ? k : 1;
    for (int i = 0; i < point; i++) ip.append(i < d.length() ? d.charAt(i) : '0');
    if (point <= 0) ip.append('0');
    for (int i = 0; i < frac; i++) {
      int j = point + i;
      fp.append(j >= 0 && j < d.length() ? d.charAt(j) : '0');
    }
    String f = fp.toString();
    if (conv == 'g' && !alt) f = f.substring(0, trimmed(f, 0));
    if (f.length() > 0 || alt && (plain || conv == 'e')) ip.append('.');
    ip.append(f);
    if (!plain) ip.append('e').append(exponent(k - 1));
    return ip.toString();
  }
}
