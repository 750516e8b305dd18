import com.google.gson.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.value.impl.*;
import util.UniqueString;

/** Reads recorded data for spec/TraceIO.tla. */
public class TraceIO {
  public static Value Load(Value path) throws Exception {
    try (Reader r = new InputStreamReader(new BufferedInputStream(
            new FileInputStream(((StringValue) path).val.toString()), 1 << 20), StandardCharsets.UTF_8)) {
      Value v = conv(JsonParser.parseReader(r));
      v.deepNormalize();
      return v;
    }
  }
  /** a marker followed by whole groups of 16 hexadecimal digits (other text, of exceptions say, is kept as it is) */
  static boolean hex(String s, char mark) {
    if (s.isEmpty() || s.charAt(0) != mark || (s.length() - 1) % 16 != 0) return false;
    for (int i = 1; i < s.length(); i++) {
      char c = s.charAt(i);
      if (!(c >= '0' && c <= '9' || c >= 'a' && c <= 'f')) return false;
    }
    return true;
  }
  static Value real(String s, int o) {
    return new TupleValue(IntValue.gen((int) Long.parseLong(s.substring(o, o + 8), 16)),
                          IntValue.gen((int) Long.parseLong(s.substring(o + 8, o + 16), 16)));
  }
  static Value conv(JsonElement e) {
    if (e.isJsonObject()) {
      Set<Map.Entry<String, JsonElement>> es = e.getAsJsonObject().entrySet();
      UniqueString[] names = new UniqueString[es.size()];
      Value[] vals = new Value[es.size()];
      int i = 0;
      for (Map.Entry<String, JsonElement> x : es) {
        names[i] = UniqueString.uniqueStringOf(x.getKey());
        vals[i++] = conv(x.getValue());
      }
      return new RecordValue(names, vals, false);
    }
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray();
      Value[] vals = new Value[a.size()];
      for (int i = 0; i < vals.length; i++) vals[i] = conv(a.get(i));
      return new TupleValue(vals);
    }
    JsonPrimitive p = e.getAsJsonPrimitive();
    if (p.isBoolean()) return p.getAsBoolean() ? BoolValue.ValTrue : BoolValue.ValFalse;
    if (p.isNumber()) return IntValue.gen(p.getAsInt());
    String s = p.getAsString();
    if (hex(s, '=') && s.length() == 17) return real(s, 1);
    if (hex(s, '#')) {
      Value[] vals = new Value[(s.length() - 1) / 16];
      for (int i = 0; i < vals.length; i++) vals[i] = real(s, 1 + 16 * i);
      return new TupleValue(vals);
    }
    return new StringValue(s);
  }
}
