package ci;
public interface Uses { int use(int i) throws Throwable; }
