import java.util.*;
import java.util.stream.*;
import se.lth.cs.docria.*;
import se.lth.cs.docria.io.DeflateCodec;
import se.lth.cs.docria.values.Values;

/** Documents read section by section. */
class Lazy {
    static Object schema(Schema s) {
        Map<Object, Object> out = new TreeMap<>();
        s.layers().forEach(l -> {
            Map<Object, Object> fields = new TreeMap<>();
            l.fields().forEach((k, v) -> fields.put(k, Helpers.type(v)));
            out.put(l.name(), fields);
        });
        return out;
    }

    static Object properties(Map<String, Value> all) {
        Map<Object, Object> out = new TreeMap<>();
        all.forEach((k, v) -> out.put(k, Helpers.show(null, v)));
        return out;
    }

    static final String QUERIES = "pPsStldD";

    /** The bytes, whose original is then spoilt. */
    static byte[] taken(byte[] data) {
        byte[] out = data.clone();
        Arrays.fill(data, (byte) 0xc1);
        return out;
    }

    /** The answer; what it was made of is then edited, as whoever asked may do. */
    static Object ask(MsgpackDocument d, char q) {
        switch (q) {
            case 'p': {
                Map<String, Value> all = d.properties();
                Object out = properties(all);
                all.clear();
                all.put("edited", Values.get(1));
                return out;
            }
            case 'P': return taken(d.propertyCompartment());
            case 's': {
                Schema s = d.schema();
                Object out = schema(s);
                for (Schema.Layer l : s.layers().collect(Collectors.toList())) {
                    if (l.name().length() % 2 == 0) s.remove(l.name());
                    else l.add("edited", DataTypes.INT_32);
                }
                s.add(Schema.layer("edited").build());
                return out;
            }
            case 'S': return taken(d.schemaCompartment());
            case 't': return taken(d.textCompartment());
            case 'l': return taken(d.layersCompartment());
            case 'd': {
                Document doc = d.document();
                Object out = ((Bridge.Raw) Helpers.dump(doc)).value;
                doc.props().put("edited", Values.get(1));
                for (Layer l : doc.layers()) for (Node n : l.stream().collect(Collectors.toList())) l.remove(n);
                return out;
            }
            case 'D': return d.data();
            default: throw new IllegalArgumentException("script: " + q);
        }
    }

    /** Answers of one object asked in the given order; "error" for a refusal. */
    static List<Object> asked(byte[] data, String order) {
        MsgpackDocument d;
        List<Object> out = new ArrayList<>();
        try {
            d = new MsgpackDocument(data);
        } catch (RuntimeException | java.io.IOError e) {
            for (int k = 0; k < order.length(); k++) out.add("error");
            return out;
        }
        for (char q : order.toCharArray()) {
            try {
                out.add(ask(d, q));
            } catch (RuntimeException | java.io.IOError e) {
                out.add("error");
            }
        }
        return out;
    }

    static String key(Object answer) throws java.io.IOException {
        return new String(Marshal.dumps(answer), java.nio.charset.StandardCharsets.ISO_8859_1);
    }

    /** [data, [orders]] -> {query: [[answer, an order that gave it]...]}, one entry per distinct answer */
    static Object orders(Bridge b, List<?> args) throws java.io.IOException {
        byte[] data = (byte[]) args.get(0);
        Map<Object, Map<String, Object>> seen = new TreeMap<>();
        for (Object o : (List<?>) args.get(1)) {
            String order = (String) o;
            List<Object> answers = asked(data, order);
            for (int k = 0; k < order.length(); k++)
                seen.computeIfAbsent(order.substring(k, k + 1), x -> new TreeMap<>()).putIfAbsent(key(answers.get(k)), Arrays.asList(answers.get(k), order));
        }
        return flat(seen);
    }

    static Object flat(Map<Object, Map<String, Object>> seen) {
        Map<Object, Object> out = new TreeMap<>();
        seen.forEach((k, v) -> out.put(k, new ArrayList<>(v.values())));
        return Helpers.raw(out);
    }

    /** [data, [lengths], [orders]] -> the same over the prefixes of these lengths, with the shortest prefix that gave an answer, 'c' being MsgpackCodec.decode */
    static Object prefixes(Bridge b, List<?> args) throws java.io.IOException {
        byte[] data = (byte[]) args.get(0);
        Map<Object, Map<String, Object>> seen = new TreeMap<>();
        for (Object n : (List<?>) args.get(1)) {
            byte[] part = Arrays.copyOf(data, (int) (long) (Long) n);
            for (Object o : (List<?>) args.get(2)) {
                String order = (String) o;
                List<Object> answers = asked(part, order);
                for (int k = 0; k < order.length(); k++)
                    if (order.charAt(k) != 'D')
                        seen.computeIfAbsent(order.substring(k, k + 1), x -> new TreeMap<>()).putIfAbsent(key(answers.get(k)), Arrays.asList(answers.get(k), order, n));
            }
            Object answer;
            try {
                answer = ((Bridge.Raw) Helpers.dump(MsgpackCodec.decode(part))).value;
            } catch (RuntimeException | java.io.IOError e) {
                answer = "error";
            }
            seen.computeIfAbsent("c", x -> new TreeMap<>()).putIfAbsent(key(answer), Arrays.asList(answer, "", n));
        }
        return flat(seen);
    }

    /** The documents that the sections of several documents combine to: [[data...], which to take each section from] */
    static Object combine(Bridge b, List<?> args) {
        List<MsgpackDocument> all = ((List<?>) args.get(0)).stream().map(x -> new MsgpackDocument((byte[]) x)).collect(Collectors.toList());
        List<?> from = (List<?>) args.get(1);
        int[] k = from.stream().mapToInt(x -> (int) (long) (Long) x).toArray();
        MsgpackDocument d = new MsgpackDocument(all.get(k[0]).propertyCompartment(), all.get(k[1]).schemaCompartment(), all.get(k[2]).textCompartment(), all.get(k[3]).layersCompartment());
        List<Object> out = new ArrayList<>();
        for (char q : QUERIES.toCharArray()) out.add(ask(d, q));
        List<String> types = new ArrayList<>();
        Map<String, List<String>> columns = new TreeMap<>();
        out.add(schema(MsgpackDocument.parseSchemaCompartment(d.schemaCompartment(), types, columns)));
        out.add(types);
        out.add(new TreeMap<>(columns));
        out.add(properties(MsgpackDocument.parsePropertyCompartment(d.propertyCompartment())));
        return Helpers.raw(out);
    }

    /** [data] -> [compressed, lengths of prefixes of it that were decompressed] */
    static Object deflate(Bridge b, List<?> args) throws Exception {
        byte[] data = (byte[]) args.get(0), other = (byte[]) args.get(1);
        byte[] packed = DeflateCodec.compress(data);
        if (!Arrays.equals(DeflateCodec.decompress(packed), data)) return Helpers.raw(Arrays.asList(packed, null, null));
        List<Object> accepted = new ArrayList<>();
        for (Object n : (List<?>) args.get(2)) {
            int[] state = {0};
            byte[] part = Arrays.copyOf(packed, Math.min((int) (long) (Long) n, packed.length - 1));
            Thread t = new Thread(() -> {
                try {
                    DeflateCodec.decompress(part);
                    state[0] = 1;
                } catch (RuntimeException | java.io.IOError e) {
                    state[0] = 2;
                }
            });
            t.setDaemon(true);
            t.start();
            t.join(5000);
            if (state[0] != 2) {
                accepted.add(Arrays.asList(part.length, state[0] == 1 ? "accepted" : "no end"));
                break;
            }
        }
        return Helpers.raw(Arrays.asList(packed, accepted, DeflateCodec.decompress(other)));
    }
}
