package org.msgpack.core;

public class MessageNeverUsedFormatException extends MessageFormatException {
    public MessageNeverUsedFormatException() { }
    public MessageNeverUsedFormatException(String message) { super(message); }
    public MessageNeverUsedFormatException(String message, Throwable cause) { super(message, cause); }
    public MessageNeverUsedFormatException(Throwable cause) { super(cause); }
}
