package org.apache.hadoop.conf;

import java.util.*;

public class Configuration {
    private final Map<String, String> values = new HashMap<>();
    public String get(String name) { return values.get(name); }
    public String get(String name, String other) { return values.getOrDefault(name, other); }
    public void set(String name, String value) { values.put(name, value); }
    public int getInt(String name, int other) { return values.containsKey(name) ? Integer.parseInt(values.get(name).trim()) : other; }
    public void setInt(String name, int value) { values.put(name, String.valueOf(value)); }
    public long getLong(String name, long other) { return values.containsKey(name) ? Long.parseLong(values.get(name).trim()) : other; }
    public void setLong(String name, long value) { values.put(name, String.valueOf(value)); }
    public boolean getBoolean(String name, boolean other) {
        String v = values.get(name);
        return "true".equals(v) || !"false".equals(v) && other;
    }
    public void setBoolean(String name, boolean value) { values.put(name, String.valueOf(value)); }
}
