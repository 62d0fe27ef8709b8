public class LinkV extends LinkW { public int a() { return 3; } }
