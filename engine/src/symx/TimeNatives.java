package symx;

import java.time.*;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.util.*;

/** Date and time: formatting is an unknown function of formatter and moment. */
final class TimeNatives {
  private TimeNatives() {}

  static final String T = "java/time/", F = T + "format/DateTimeFormatter", LF = "L" + F + ";", LI = "Ljava/time/Instant;", LZ = "Ljava/time/ZoneId;",
      LZD = "Ljava/time/ZonedDateTime;", LTA = "Ljava/time/temporal/TemporalAccessor;", LS = "Ljava/lang/String;", LO = "Ljava/time/ZoneOffset;";

  /** a value of a java.time class, known by its components */
  static Obj make(Engine e, String cls, Object... key) {
    Obj o = e.alloc(e.klass(cls));
    o.x = Arrays.asList(key);
    return o;
  }

  static List<?> key(Obj o) {
    if (!(o.x instanceof List)) throw new Unsupported("components of " + o.k.name);
    return (List<?>) o.x;
  }

  /** the object as a flat list of constants and terms */
  static void flatten(Engine e, Object o, List<Object> out, int depth) {
    if (depth > 6) throw new Unsupported("deep value");
    if (o instanceof Rope) {
      Rope r = (Rope) o;
      if (!r.unitsOnly()) throw new Unsupported("text with runs in a key");
      out.addAll(Arrays.asList(r.ch));
    } else if (o instanceof List) {
      for (Object x : (List<?>) o) flatten(e, x, out, depth + 1);
    } else if (o instanceof Obj) {
      Obj b = (Obj) o;
      out.add(b.k.name);
      if (b instanceof Arr) throw new Unsupported("array in a key");
      if (b.x != null) flatten(e, b.x, out, depth + 1);
      else for (Object x : b.f) flatten(e, x, out, depth + 1);
    } else out.add(o == null ? "null" : o);
  }

  /** text that is a function of the key: equal keys give equal texts */
  static Obj function(Engine e, String kind, int len, Object key) {
    List<Object> k = new ArrayList<>();
    k.add(kind);
    flatten(e, key, k, 0);
    Rope hit = e.opaques.get(k);
    if (hit != null) return e.str(hit);
    for (Map.Entry<Object, Rope> x : new ArrayList<>(e.opaques.entrySet())) {
      List<?> l = (List<?>) x.getKey();
      if (l.size() != k.size()) continue;
      Term same = e.tf.T;
      for (int i = 0; i < k.size() && same != e.tf.F; i++) {
        Object p = l.get(i), q = k.get(i);
        if (p.equals(q)) continue;
        if (!(p instanceof Term || q instanceof Term) || !numeric(p) || !numeric(q)) same = e.tf.F;
        else {
          Term s = e.t(p), t = e.t(q);
          same = s.w == t.w ? e.tf.band(same, e.tf.eq(s, t)) : e.tf.F;
        }
      }
      if (same != e.tf.F && e.decide(same)) return e.str(x.getValue());
    }
    e.validate = false;
    String nm = e.fresh(kind);
    Object[] c = new Object[len];
    for (int i = 0; i < len; i++) c[i] = e.tf.var(nm + "." + i, 32, 33, 126);
    Rope r = Rope.units(c);
    e.opaques.put(k, r);
    return e.str(r);
  }

  private static boolean numeric(Object o) {
    return o instanceof Term || o instanceof Integer || o instanceof Long;
  }

  // ------------------------------------------------------------ formatters
  /** the pattern with unknown literal characters replaced by a literal one */
  static String representative(Engine e, Rope r) {
    StringBuilder sb = new StringBuilder();
    for (Object c : r.toUnits(e)) {
      if (c instanceof Integer) {
        sb.append((char) (int) (Integer) c);
        continue;
      }
      Term t = (Term) c;
      TF tf = e.tf;
      Term special = tf.bor(tf.band(tf.sle(tf.cst(32, 'A'), t), tf.sle(t, tf.cst(32, 'Z'))), tf.band(tf.sle(tf.cst(32, 'a'), t), tf.sle(t, tf.cst(32, 'z'))));
      for (char x : "'{}[]#".toCharArray()) special = tf.bor(special, tf.eq(t, tf.cst(32, x)));
      sb.append(e.decide(special) ? (char) e.concretize(t, "pattern character") : 'é');
    }
    return sb.toString();
  }

  static DateTimeFormatter host(String rep) {
    try {
      return DateTimeFormatter.ofPattern(rep);
    } catch (IllegalArgumentException x) {
      return null;
    }
  }

  static Object named(String n) {
    try {
      return DateTimeFormatter.class.getField(n).get(null);
    } catch (ReflectiveOperationException x) {
      return null;
    }
  }

  /** whether the formatter fails for values of the class */
  static boolean fails(Object rep, Obj t) {
    DateTimeFormatter f = (DateTimeFormatter) (((String) rep).startsWith("=") ? named(((String) rep).substring(1)) : host((String) rep));
    if (f == null) throw new Unsupported("formatter " + rep);
    TemporalAccessor v = sample(t.k.name);
    if (v == null) throw new Unsupported("formatting " + t.k.name);
    try {
      f.format(v);
      return false;
    } catch (DateTimeException x) {
      return true;
    }
  }

  static TemporalAccessor sample(String cls) {
    Instant i = Instant.ofEpochSecond(1234567890L, 5);
    switch (cls) {
      case T + "Instant": return i;
      case T + "ZonedDateTime": return i.atZone(ZoneId.of("Europe/Berlin"));
      case T + "OffsetDateTime": return i.atOffset(ZoneOffset.ofHours(2));
      case T + "LocalDateTime": return LocalDateTime.of(2009, 2, 13, 23, 31, 30, 5);
      case T + "LocalDate": return LocalDate.of(2009, 2, 13);
      case T + "LocalTime": return LocalTime.of(23, 31, 30, 5);
      case T + "Year": return Year.of(2009);
      default: return null;
    }
  }

  static Obj instant(Engine e, Object sec, Object nano) {
    Obj o = e.alloc(e.klass(T + "Instant"));
    e.init(o.k);
    e.setField(o, "seconds", sec);
    e.setField(o, "nanos", nano);
    return o;
  }

  static Obj moment(Engine e, String cls, Object instant, Object zone) {
    if (instant == null || zone == null) throw e.thr("java/lang/NullPointerException", null);
    Obj i = (Obj) instant;
    return make(e, T + cls, e.getField(i, "seconds"), e.getField(i, "nanos"), key((Obj) zone));
  }

  static void register(HashMap<String, Native> m) {
    // ---------------------------------------------------------- formatters
    m.put(F + ".<clinit>()V", (e, a) -> {
      Klass k = e.klass(F);
      for (Fld f : k.fields.values()) {
        if (!f.isStatic || !f.desc.equals(LF)) continue;
        Obj o = make(e, F, "=" + f.name, "", "");
        o.base = true;
        k.statics[f.slot] = o;
      }
      return null;
    });
    m.put(F + ".ofPattern(" + LS + ")" + LF, (e, a) -> {
      if (a[0] == null) throw e.thr("java/lang/NullPointerException", "pattern");
      Rope r = Rope.units(e.rope(a[0]).toUnits(e));
      String rep = representative(e, r);
      if (host(rep) == null) throw e.thr("java/lang/IllegalArgumentException", "invalid pattern");
      return make(e, F, rep, r, "");
    });
    m.put(F + ".withZone(" + LZ + ")" + LF, (e, a) -> {
      List<?> k = key((Obj) a[0]);
      return make(e, F, k.get(0), k.get(1), a[1] == null ? "" : a[1]);
    });
    m.put(F + ".format(" + LTA + ")" + LS, (e, a) -> {
      if (a[1] == null) throw e.thr("java/lang/NullPointerException", "temporal");
      List<?> k = key((Obj) a[0]);
      Obj t = (Obj) a[1];
      if (k.get(2) instanceof Obj) {
        if (!t.k.name.equals(T + "Instant")) throw new Unsupported("formatter with a zone");
        t = moment(e, "ZonedDateTime", t, k.get(2));
      }
      if (fails(k.get(0), t)) throw e.thr("java/time/temporal/UnsupportedTemporalTypeException", "Unsupported field");
      return function(e, "timeText", 3, Arrays.asList(k.get(0), k.get(1), t));
    });
    m.put(F + ".formatTo(" + LTA + "Ljava/lang/Appendable;)V", (e, a) -> {
      Object s = e.callVirtual(a[0], "format(" + LTA + ")" + LS, a[1]);
      e.callVirtual(a[2], "append(Ljava/lang/CharSequence;)Ljava/lang/Appendable;", s);
      return null;
    });
    m.put(F + ".toString()" + LS, (e, a) -> e.str("formatter"));

    // ---------------------------------------------------------- zones and moments
    for (String c : new String[] {"ZoneId", "ZoneOffset", "ZoneRegion", "ZonedDateTime", "OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime"})
      m.put(T + c + ".<clinit>()V", (e, a) -> {
        if (!c.equals("ZoneOffset")) return null;
        Klass k = e.klass(T + c);
        Obj o = make(e, T + c, "offset", 0);
        o.base = true;
        k.statics[k.field("UTC").slot] = o;
        Obj min = make(e, T + c, "offset", -64800), max = make(e, T + c, "offset", 64800);
        min.base = max.base = true;
        k.statics[k.field("MIN").slot] = min;
        k.statics[k.field("MAX").slot] = max;
        return null;
      });
    m.put(T + "ZoneId.systemDefault()" + LZ, (e, a) -> make(e, T + "ZoneRegion", "system zone", ""));
    m.put(T + "ZoneId.of(" + LS + ")" + LZ, (e, a) -> make(e, T + "ZoneRegion", "zone", e.host(a[0])));
    m.put(T + "ZoneOffset.ofHours(I)" + LO, (e, a) -> make(e, T + "ZoneOffset", "offset", 3600 * (Integer) a[0]));
    m.put(T + "ZoneOffset.ofTotalSeconds(I)" + LO, (e, a) -> {
      if (!(a[0] instanceof Integer) || Math.abs((Integer) a[0]) > 64800) throw new Unsupported("zone offset");
      return make(e, T + "ZoneOffset", "offset", a[0]);
    });
    m.put(T + "ZoneOffset.getTotalSeconds()I", (e, a) -> key((Obj) a[0]).get(1));
    m.put(T + "OffsetDateTime.getOffset()" + LO, (e, a) -> make(e, T + "ZoneOffset", ((List<?>) key((Obj) a[0]).get(2)).toArray()));
    m.put(T + "ZonedDateTime.getZone()" + LZ, (e, a) -> {
      List<?> z = (List<?>) key((Obj) a[0]).get(2);
      return make(e, T + (z.get(0).equals("offset") ? "ZoneOffset" : "ZoneRegion"), z.toArray());
    });
    for (String c : new String[] {"ZonedDateTime", "OffsetDateTime", "LocalDateTime"})
      m.put(T + c + ".getNano()I", (e, a) -> key((Obj) a[0]).get(1));
    m.put(T + "OffsetDateTime.toEpochSecond()J", (e, a) -> key((Obj) a[0]).get(0));
    m.put(T + "chrono/ChronoZonedDateTime.toEpochSecond()J", (e, a) -> key((Obj) a[0]).get(0));
    for (String c : new String[] {"ZonedDateTime", "OffsetDateTime"})
      m.put(T + c + ".toLocalDateTime()Ljava/time/LocalDateTime;", (e, a) -> make(e, T + "LocalDateTime", key((Obj) a[0]).toArray()));
    m.put(T + "ZonedDateTime.withZoneSameInstant(" + LZ + ")" + LZD, (e, a) -> make(e, T + "ZonedDateTime", key((Obj) a[0]).get(0), key((Obj) a[0]).get(1), key((Obj) a[1])));
    m.put(T + "OffsetDateTime.atZoneSameInstant(" + LZ + ")" + LZD, (e, a) -> make(e, T + "ZonedDateTime", key((Obj) a[0]).get(0), key((Obj) a[0]).get(1), key((Obj) a[1])));
    m.put(T + "Instant.atZone(" + LZ + ")" + LZD, (e, a) -> moment(e, "ZonedDateTime", a[0], a[1]));
    m.put(T + "ZonedDateTime.ofInstant(" + LI + LZ + ")" + LZD, (e, a) -> moment(e, "ZonedDateTime", a[0], a[1]));
    m.put(T + "Instant.atOffset(" + LO + ")Ljava/time/OffsetDateTime;", (e, a) -> moment(e, "OffsetDateTime", a[0], a[1]));
    m.put(T + "LocalDateTime.ofInstant(" + LI + LZ + ")Ljava/time/LocalDateTime;", (e, a) -> moment(e, "LocalDateTime", a[0], a[1]));
    m.put(T + "LocalDateTime.ofEpochSecond(JI" + LO + ")Ljava/time/LocalDateTime;", (e, a) -> make(e, T + "LocalDateTime", a[0], a[1], key((Obj) a[2])));
    m.put(T + "LocalDate.ofEpochDay(J)Ljava/time/LocalDate;", (e, a) -> make(e, T + "LocalDate", a[0]));
    m.put(T + "LocalTime.ofSecondOfDay(J)Ljava/time/LocalTime;", (e, a) -> make(e, T + "LocalTime", a[0]));
    for (String c : new String[] {"ZonedDateTime", "OffsetDateTime"})
      m.put(T + c + ".toInstant()" + LI, (e, a) -> instant(e, key((Obj) a[0]).get(0), key((Obj) a[0]).get(1)));
    m.put(T + "chrono/ChronoZonedDateTime.toInstant()" + LI, (e, a) -> instant(e, key((Obj) a[0]).get(0), key((Obj) a[0]).get(1)));
    m.put(T + "Instant.from(" + LTA + ")" + LI, (e, a) -> {
      if (a[0] == null) throw e.thr("java/lang/NullPointerException", "temporal");
      Obj t = (Obj) a[0];
      if (t.k.name.equals(T + "Instant")) return t;
      if (t.k.name.equals(T + "ZonedDateTime") || t.k.name.equals(T + "OffsetDateTime")) return instant(e, key(t).get(0), key(t).get(1));
      if (sample(t.k.name) == null) throw new Unsupported("Instant.from " + t.k.name);
      throw e.thr("java/time/DateTimeException", "Unable to obtain Instant from TemporalAccessor");
    });
    for (String c : new String[] {"Instant", "ZonedDateTime", "OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime", "ZoneRegion", "ZoneOffset"})
      m.put(T + c + ".toString()" + LS, (e, a) -> function(e, "valueText", 3, a[0]));

    // ---------------------------------------------------------- java.util
    m.put("java/util/Date.<clinit>()V", (e, a) -> null);
    m.put("java/util/Date.toString()" + LS, (e, a) -> function(e, "dateText", 3, e.callVirtual(a[0], "getTime()J")));
    m.put("java/util/Calendar.<clinit>()V", (e, a) -> null);
    m.put("java/util/GregorianCalendar.<clinit>()V", (e, a) -> null);
    m.put("java/util/Calendar.getInstance()Ljava/util/Calendar;", (e, a) -> make(e, "java/util/GregorianCalendar", 1700000000000L));
    m.put("java/util/Calendar.setTimeInMillis(J)V", (e, a) -> {
      e.payload((Obj) a[0], Arrays.asList(a[1]));
      return null;
    });
    m.put("java/util/Calendar.getTimeInMillis()J", (e, a) -> key((Obj) a[0]).get(0));
    m.put("java/util/Calendar.getTime()Ljava/util/Date;", (e, a) -> e.newObj("java/util/Date", "(J)V", key((Obj) a[0]).get(0)));
    m.put("java/util/Calendar.toString()" + LS, (e, a) -> function(e, "calendarText", 3, a[0]));
  }
}
