package it.unimi.dsi.fastutil.ints;
import java.util.Collection;
public interface IntCollection extends Collection<Integer> {
    IntIterator iterator();
    default boolean contains(int k) { return contains((Object) Integer.valueOf(k)); }
    default boolean add(int k) { return add(Integer.valueOf(k)); }
    default boolean rem(int k) { return remove((Object) Integer.valueOf(k)); }
    default int[] toIntArray() { return stream().mapToInt(Integer::intValue).toArray(); }
}
