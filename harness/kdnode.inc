HARNESS(kdnode)
{
    float s = vc_f32("split"); uint32_t ax = vc_u32("axis"); vc_assume(ax < 3); uint32_t oc = vc_u32("child"); vc_assume(oc < (1u << 29));
    KdTreeNode n(s, (int)ax, oc);
    vc_check(!n.isLeaf(), "an internal node is not a leaf"); vc_check((uint32_t)n.getAxis() == ax, "axis survives encoding"); vc_check(n.getSplit() == s, "split position survives encoding"); vc_check(n.getOtherChildOffset() == oc, "child offset survives encoding");
    uint32_t off = vc_u32("off"), num = vc_u32("num"); vc_assume(num < (1u << 31));
    KdTreeNode l(off, num);
    vc_check(l.isLeaf(), "a leaf is a leaf"); vc_check(l.getAssetOffset() == off, "asset offset survives encoding"); vc_check(l.getAssetsNumber() == num, "asset count survives encoding");
}
