"""Forces at the ends of elastic catenaries, proposed to the specification
which checks them (module Start)."""
import math


def shape(H, V, L, W, EA, contact):
    """where the upper end lies when the forces there are H and V"""
    if contact and V < W * L:
        lb = L - V / W
        return lb + H / W * math.asinh(V / H) + H * L / EA, H / W * (math.hypot(1, V / H) - 1) + V * V / (2 * EA * W)
    a, b = V / H, (V - W * L) / H
    return (H / W * (math.asinh(a) - math.asinh(b)) + H * L / EA,
            H / W * (math.hypot(1, a) - math.hypot(1, b)) + L / EA * (V - 0.5 * W * L))


def solve(XF, ZF, L, W, EA, contact):
    """-> (H, V) or None"""
    big = EA * 1e3 + abs(W) * L * 1e6

    def vert(H):
        lo, hi = (0.0 if contact else -big), big
        for _ in range(200):
            m = 0.5 * (lo + hi)
            if m in (lo, hi):
                break
            lo, hi = (m, hi) if shape(H, m, L, W, EA, contact)[1] < ZF else (lo, m)
        return 0.5 * (lo + hi)
    lo, hi = abs(W) * L * 1e-7 + 1e-9, big
    for _ in range(200):
        m = math.sqrt(lo * hi)
        if m <= lo or m >= hi:
            break
        lo, hi = (m, hi) if shape(m, vert(m), L, W, EA, contact)[0] < XF else (lo, m)
    H = math.sqrt(lo * hi)
    V = vert(H)
    x, z = shape(H, V, L, W, EA, contact)
    return (H, V) if max(abs(x - XF), abs(z - ZF)) < 1e-8 * L else None
