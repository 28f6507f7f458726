package org.apache.hadoop.io;

public class Text { }
