public interface LinkI { int keep(); int gone2(); }
