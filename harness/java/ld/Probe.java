package ld;
public interface Probe { Class ref(int how, int target); }
