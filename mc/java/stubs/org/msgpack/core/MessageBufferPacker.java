package org.msgpack.core;

import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.OutputStream;
import java.util.ArrayList;
import java.util.List;
import org.msgpack.core.buffer.MessageBuffer;

public class MessageBufferPacker extends MessagePacker {
    private final List<MessageBuffer> list = new ArrayList<>();

    MessageBufferPacker() { super(OutputStream.nullOutputStream()); }

    @Override
    protected void emit(byte[] src, int off, int len, boolean mine) { list.add(MessageBuffer.wrap(src, off, len)); }

    @Override
    public void clear() {
        super.clear();
        list.clear();
    }

    private void drain() {
        try {
            flush();
        } catch (IOException e) {
            throw new RuntimeException(e);
        }
    }

    public byte[] toByteArray() {
        drain();
        ByteArrayOutputStream all = new ByteArrayOutputStream();
        for (MessageBuffer b : list) {
            byte[] bytes = b.toByteArray();
            all.write(bytes, 0, bytes.length);
        }
        return all.toByteArray();
    }

    public MessageBuffer toMessageBuffer() {
        drain();
        if (list.size() == 1)
            return list.get(0);
        return MessageBuffer.wrap(toByteArray());
    }

    public List<MessageBuffer> toBufferList() {
        drain();
        return new ArrayList<>(list);
    }

    public int getBufferSize() {
        int n = 0;
        for (MessageBuffer b : list)
            n += b.size();
        return n;
    }
}
