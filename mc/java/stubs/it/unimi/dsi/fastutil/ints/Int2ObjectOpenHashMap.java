package it.unimi.dsi.fastutil.ints;

import java.util.AbstractMap;
import java.util.AbstractSet;
import java.util.HashMap;
import java.util.Iterator;
import java.util.Map;
import java.util.Set;

public class Int2ObjectOpenHashMap<V> extends AbstractMap<Integer, V> {
    private final HashMap<Integer, V> all = new HashMap<>();
    private V defRetValue = null;

    public Int2ObjectOpenHashMap() { }
    public Int2ObjectOpenHashMap(int expected) { }
    public Int2ObjectOpenHashMap(Map<? extends Integer, ? extends V> m) { all.putAll(m); }

    public void defaultReturnValue(V v) { defRetValue = v; }
    public V defaultReturnValue() { return defRetValue; }
    private V or(V v) { return v == null ? defRetValue : v; }
    public V get(int k) { return or(all.get(k)); }
    @Override public V get(Object k) { return or(all.get(k)); }
    public boolean containsKey(int k) { return all.containsKey(k); }
    @Override public boolean containsKey(Object k) { return all.containsKey(k); }
    public V put(int k, V v) { return or(all.put(k, v)); }
    @Override public V put(Integer k, V v) { return or(all.put(k, v)); }
    public V remove(int k) { return or(all.remove(k)); }
    @Override public V remove(Object k) { return or(all.remove(k)); }
    @Override public void clear() { all.clear(); }
    @Override public int size() { return all.size(); }
    @Override public Set<Map.Entry<Integer, V>> entrySet() { return all.entrySet(); }

    @Override
    public IntSet keySet() {
        class Keys extends AbstractSet<Integer> implements IntSet {
            @Override public int size() { return all.size(); }
            @Override public boolean contains(Object o) { return all.containsKey(o); }
            @Override public boolean remove(Object o) { boolean had = all.containsKey(o); all.remove(o); return had; }
            @Override public IntIterator iterator() {
                final Iterator<Integer> it = all.keySet().iterator();
                return new IntIterator() {
                    @Override public boolean hasNext() { return it.hasNext(); }
                    @Override public int nextInt() { return it.next(); }
                    @Override public void remove() { it.remove(); }
                };
            }
        }
        return new Keys();
    }
}
