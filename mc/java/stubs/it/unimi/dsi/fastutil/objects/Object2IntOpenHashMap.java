package it.unimi.dsi.fastutil.objects;

import java.util.AbstractMap;
import java.util.HashMap;
import java.util.Map;
import java.util.Set;

public class Object2IntOpenHashMap<K> extends AbstractMap<K, Integer> {
    private final HashMap<K, Integer> all = new HashMap<>();
    private int def = 0;

    public void defaultReturnValue(int v) { def = v; }
    public int defaultReturnValue() { return def; }
    public int getInt(Object k) { return all.getOrDefault(k, def); }
    public int put(K k, int v) {
        Integer old = all.put(k, v);
        return old == null ? def : old;
    }
    @Override public Integer put(K k, Integer v) { return all.put(k, v); }
    public int removeInt(Object k) {
        Integer old = all.remove(k);
        return old == null ? def : old;
    }
    @Override public boolean containsKey(Object k) { return all.containsKey(k); }
    @Override public Set<Map.Entry<K, Integer>> entrySet() { return all.entrySet(); }
}
