package it.unimi.dsi.fastutil.ints;
import java.util.List;
public interface IntList extends IntCollection, List<Integer> {
    IntListIterator iterator();
    IntListIterator listIterator();
    IntListIterator listIterator(int index);
    int getInt(int index);
    int set(int index, int k);
    void add(int index, int k);
    int removeInt(int index);
    @Override default java.util.Spliterator<Integer> spliterator() { return List.super.spliterator(); }
}
