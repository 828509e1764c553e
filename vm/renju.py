"""Renju forbidden points from the rule text (independent of the code under test).

A black stone on an empty point is forbidden unless it completes exactly five in
some line, when it makes six or more in a line, at least two fours, or at least
two threes.  A four is a set of four black stones including the new one that one
more stone turns into exactly five; a straight four counts once.  A three is a
row that one more stone, not completing a five and not itself forbidden, turns
into a straight four.
"""
DIRS = ((1, 0), (0, 1), (1, 1), (1, -1))


class Position:
    def __init__(self, H, W, black, white):
        self.H, self.W = H, W
        self.cell = {}
        for y in range(H):
            for x in range(W):
                self.cell[x, y] = 1 if black[y][x] else 2 if white[y][x] else 0
        self.depth_hits = 0

    def run(self, x, y, d):
        """Length and ends of the maximal black run through (x, y)."""
        dx, dy = d
        c = self.cell
        a = b = 0
        while c.get((x + dx * (b + 1), y + dy * (b + 1))) == 1:
            b += 1
        while c.get((x - dx * (a + 1), y - dy * (a + 1))) == 1:
            a += 1
        return a + b + 1, (x - dx * (a + 1), y - dy * (a + 1)), (x + dx * (b + 1), y + dy * (b + 1))

    def makes(self, p, d):
        """Run length when black stands on p."""
        return self.run(*p, d)[0]

    def five(self, p):
        return any(self.makes(p, d) == 5 for d in DIRS)

    def over(self, p):
        return any(self.makes(p, d) > 5 for d in DIRS)

    def fours(self, p, d):
        """(number of fours, straight?) that black on p (already placed) has along d."""
        pts = []
        for k in range(-4, 5):
            q = (p[0] + d[0] * k, p[1] + d[1] * k)
            if self.cell.get(q) == 0:
                n, lo, hi = self.run(*q, d)
                if n == 5 and abs(k) <= 4 and self._covers(q, d, p):
                    pts.append(q)
        if len(pts) == 2:
            n, lo, hi = self.run(*p, d)
            if n == 4 and {lo, hi} == set(pts):
                return 1, True
        return len(pts), False

    def _covers(self, q, d, p):
        """p belongs to the run a stone on q would complete."""
        k = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
        sx, sy = (p[0] > q[0]) - (p[0] < q[0]), (p[1] > q[1]) - (p[1] < q[1])
        return all(self.cell.get((q[0] + sx * j, q[1] + sy * j)) == 1 for j in range(1, k + 1))

    def three(self, p, d):
        """Black stands on p: is there a legal stone along d that makes a straight four with p?"""
        for k in range(-3, 4):
            q = (p[0] + d[0] * k, p[1] + d[1] * k)
            if self.cell.get(q) != 0 or not self._covers(q, d, p) or self.five(q):
                continue
            self.cell[q] = 1
            straight = self.fours(q, d)[1]
            self.cell[q] = 0
            if straight:
                if self.kind(q) is None:
                    return True
                self.depth_hits += 1
        return False

    def kind(self, p):
        """None, or why a black stone on p is forbidden."""
        if self.cell[p] != 0 or self.five(p):
            return None
        if self.over(p):
            return "overline"
        self.cell[p] = 1
        try:
            if sum(self.fours(p, d)[0] for d in DIRS) >= 2:
                return "four"
            if sum(self.three(p, d) for d in DIRS) >= 2:
                return "three"
        finally:
            self.cell[p] = 0
        return None

    def map(self):
        out = [[None] * self.W for _ in range(self.H)]
        blacks = [p for p, v in self.cell.items() if v == 1]
        near = set()
        for x, y in blacks:
            for dx, dy in DIRS:
                for k in range(-5, 6):
                    near.add((x + dx * k, y + dy * k))
        for p in near:
            if self.cell.get(p) == 0:
                out[p[1]][p[0]] = self.kind(p)
        return out
