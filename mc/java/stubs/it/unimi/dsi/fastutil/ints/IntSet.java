package it.unimi.dsi.fastutil.ints;
import java.util.Set;
public interface IntSet extends IntCollection, Set<Integer> {
    IntIterator iterator();
    default boolean remove(int k) { return remove((Object) Integer.valueOf(k)); }
    @Override default java.util.Spliterator<Integer> spliterator() { return Set.super.spliterator(); }
}
