package org.msgpack.core;

import java.io.InputStream;
import java.io.OutputStream;
import java.nio.ByteBuffer;
import java.nio.charset.Charset;
import java.nio.charset.StandardCharsets;

/** Stand-in for msgpack-core 0.8 (not installable offline): the parts docria can reasonably use. */
public class MessagePack {
    public static final Charset UTF8 = StandardCharsets.UTF_8;

    public static class PackerConfig {
        public MessagePacker newPacker(OutputStream out) { return new MessagePacker(out); }
        public MessageBufferPacker newBufferPacker() { return new MessageBufferPacker(); }
    }

    public static class UnpackerConfig {
        public MessageUnpacker newUnpacker(InputStream in) { return new MessageUnpacker(in); }
        public MessageUnpacker newUnpacker(byte[] contents) { return new MessageUnpacker(contents, 0, contents.length); }
        public MessageUnpacker newUnpacker(byte[] contents, int offset, int length) { return new MessageUnpacker(contents, offset, length); }
    }

    public static final PackerConfig DEFAULT_PACKER_CONFIG = new PackerConfig();
    public static final UnpackerConfig DEFAULT_UNPACKER_CONFIG = new UnpackerConfig();

    public static MessagePacker newDefaultPacker(OutputStream out) { return new MessagePacker(out); }
    public static MessageBufferPacker newDefaultBufferPacker() { return new MessageBufferPacker(); }
    public static MessageUnpacker newDefaultUnpacker(InputStream in) { return new MessageUnpacker(in); }

    public static MessageUnpacker newDefaultUnpacker(byte[] contents) {
        Hook.at("open");
        return new MessageUnpacker(contents, 0, contents.length);
    }

    public static MessageUnpacker newDefaultUnpacker(byte[] contents, int offset, int length) {
        Hook.at("open");
        return new MessageUnpacker(contents, offset, length);
    }

    public static MessageUnpacker newDefaultUnpacker(ByteBuffer contents) {
        byte[] all = new byte[contents.remaining()];
        contents.duplicate().get(all);
        return new MessageUnpacker(all, 0, all.length);
    }
}
