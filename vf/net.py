"""Random feeders (connected networks) with their circuit computed independently of the code under test."""
import numpy as np
from vf import gen

W = np.exp(2j * np.pi / 3)
A = np.array([[1, 1, 1], [1, W ** 2, W], [1, W, W ** 2]])      # sequence -> phase
AI = np.linalg.inv(A)


def bus_data(i, t=1, p=.1, q=.05, kv=4.16, z_perc=0., i_perc=0.):
    from src.simulation.load_profile import BusData
    return BusData(i, t, p, q, 0.0, 0.0, 1, 1, 0, kv, 1, 1.2, .8, z_perc, i_perc)


class Feeder:
    """buses: ids in creation order; lines: (from, to, length, r, x, status); loads p, q per bus (0 at the feeding bus)."""

    def __init__(self, rng, n=None, mesh=None, three=False, empty=None, balanced=None, contiguous=None, pcc=None):
        self.rng, self.three = rng, three
        n = n or rng.randint(2, 11)
        self.n = n
        if contiguous is None:
            contiguous = rng.rand() < .3
        self.ids = [int(k) for k in (1 + np.arange(n) if contiguous else rng.permutation(rng.choice(60, n, replace=False)))]
        self.pcc = int(rng.randint(n)) if pcc is None else (pcc % n)
        self.kv = float(gen.pick(rng, 4.16, 1., 12.47, .4, 20.))
        self.sn = 1.
        base_z = self.kv ** 2
        order = rng.permutation(n)
        edges = [(order[i], order[rng.randint(max(0, i - 3), i)]) for i in range(1, n)]
        mesh = (rng.rand() < .5) if mesh is None else mesh
        if mesh:
            for _ in range(rng.randint(1, n + 1)):
                a, b = rng.randint(n), rng.randint(n)
                if a != b:
                    edges.append((a, b))
        self.lines = []
        for a, b in edges:
            if rng.rand() < .5:
                a, b = b, a
            z = rng.uniform(.002, .02) * base_z
            f = rng.uniform(.3, 1.2)
            length = float(gen.pick(rng, 1., rng.uniform(.05, 3), 400.)) if not three else float(rng.uniform(.1, 2))
            self.lines.append([int(a), int(b), length, z * np.cos(f), z * np.sin(f), 1])
        self.types = {}
        if three:
            for k in range(rng.randint(1, 4)):
                z1 = rng.uniform(.002, .02) * base_z * np.exp(1j * rng.uniform(.4, 1.2))
                z0 = z1 * rng.uniform(1.5, 4) * np.exp(1j * rng.uniform(-.2, .2))
                self.types["T%d" % k] = (complex(z0), complex(z1))
            names = sorted(self.types)
            for ln in self.lines:
                ln.append(names[rng.randint(len(names))])
        # loads, in per unit of a strong grid: a fraction of a percent of voltage drop each
        pe = rng.uniform(.2, .5) if empty is None else empty
        self.sym = np.ones(n, dtype=bool)
        self.p, self.q = np.zeros((n, 3)), np.zeros((n, 3))
        for i in range(n):
            if i == self.pcc:
                continue
            if three and rng.rand() < .6 and not balanced:
                self.sym[i] = False
                on = rng.rand(3) > pe
            else:
                on = np.ones(3) * (rng.rand() > pe)
            self.p[i] = on * rng.uniform(.02, .6) / 3 / n * 3
            self.q[i] = on * self.p[i] * rng.uniform(.2, .9)
            if not self.sym[i]:
                self.p[i] *= rng.uniform(.5, 1.5, 3) / 3
                self.q[i] *= rng.uniform(.5, 1.5, 3) / 3
        if not three:
            self.p, self.q = self.p[:, 0].copy(), self.q[:, 0].copy()
        self.zi = np.zeros((n, 2))      # percentages of constant impedance and constant current

    def voltage_dependent(self, rng):
        """Some loads follow the voltage (single phase only)."""
        on = rng.rand(self.n) < .6
        on[self.pcc] = False
        self.zi[on] = (100 * rng.rand(on.sum(), 3)[:, :2] * gen.pick(rng, [1, 0], [0, 1], [.5, .5])).round(1)
        return self

    def served(self, s, v):
        """Powers drawn at the voltages v when s is requested at nominal voltage."""
        if self.three:
            return s
        z, i = self.zi.T / 100
        return s * (1 - z - i + z * np.abs(v) ** 2 + i * np.abs(v))

    # -- objects of the code under test
    def buses(self):
        out = []
        for i, k in enumerate(self.ids):
            if i == self.pcc:
                out.append(bus_data(k, 3, 5., 5., self.kv))
            elif self.three and not self.sym[i]:
                out.append(bus_data(k, 1, tuple(map(float, self.p[i])), tuple(map(float, self.q[i])), self.kv))
            elif self.three:
                out.append(bus_data(k, 1, float(self.p[i].sum()), float(self.q[i].sum()), self.kv))
            else:
                out.append(bus_data(k, 1, float(self.p[i]), float(self.q[i]), self.kv, *map(float, self.zi[i])))
        return out

    def line_data(self, ln):
        from src.simulation.lines import LineData
        if self.three:
            return LineData(self.ids[ln[0]], self.ids[ln[1]], ln[2], ln[6], s=ln[5])
        return LineData(self.ids[ln[0]], self.ids[ln[1]], ln[2], None, ln[3], ln[4], s=ln[5])

    def std_types(self):
        return {k: {"r_ohm_per_km": z1.real, "x_ohm_per_km": z1.imag, "c_nf_per_km": 0, "max_i_ka": 10000,
                    "c0_nf_per_km": 0, "r0_ohm_per_km": z0.real, "x0_ohm_per_km": z0.imag}
                for k, (z0, z1) in self.types.items()}

    def build(self, cls):
        ls = [self.line_data(ln) for ln in self.lines]
        return cls(self.std_types(), self.buses(), ls) if self.three else cls(self.buses(), ls)

    # -- the circuit
    def y(self, seq=None, sn=1., lines=None):
        """Per unit nodal matrix in creation order; seq 0 or 1 for three-phase feeders."""
        y = np.zeros((self.n, self.n), dtype=complex)
        for ln in (self.lines if lines is None else lines):
            if ln[5] <= 0:
                continue
            z = (ln[3] + 1j * ln[4]) if seq is None else self.types[ln[6]][seq] * ln[2]
            v = self.kv ** 2 / sn / z / (1 if seq is None else 3)     # sequences: base of one phase
            a, b = ln[0], ln[1]
            y[a, a] += v
            y[b, b] += v
            y[a, b] -= v
            y[b, a] -= v
        return y

    def y3(self):
        y0, y1 = self.y(0), self.y(1)
        out = np.zeros((3 * self.n, 3 * self.n), dtype=complex)
        for i in range(self.n):
            for j in range(self.n):
                out[3*i:3*i+3, 3*j:3*j+3] = A @ np.diag([y0[i, j], y1[i, j], y1[i, j]]) @ AI
        return out
