"""The published linearised Whipple-Carvallo coefficients (Meijaard, Papadopoulos,
Ruina and Schwab 2007, appendix A), as rational functions of the 25 parameters,
derived here from each body's rigid-body sums rather than copied term by term."""
import ring
from ring import var, const, sin, cos

Z = const(0)


def bodies(p):
    """(mass, x, z, (Ixx, Ixz, Izz)) of the four bodies; wheels are axisymmetric."""
    return {
        'R': (p('mR'), Z, -p('rR'), (p('IRxx'), Z, p('IRxx'))),
        'B': (p('mB'), p('xB'), p('zB'), (p('IBxx'), p('IBxz'), p('IBzz'))),
        'H': (p('mH'), p('xH'), p('zH'), (p('IHxx'), p('IHxz'), p('IHzz'))),
        'F': (p('mF'), p('w'), -p('rF'), (p('IFxx'), Z, p('IFxx'))),
    }


def canonical(p=var):
    """M, C1, K0, K2 as 2x2 lists (roll, steer)."""
    b = bodies(p)
    lam = p('lam')
    s, c_, w, c = sin(lam), cos(lam), p('w'), p('c')

    def total(names):
        m = sum((b[n][0] for n in names), Z)
        x = sum((b[n][0] * b[n][1] for n in names), Z) / m
        z = sum((b[n][0] * b[n][2] for n in names), Z) / m
        return m, x, z

    mT, xT, zT = total('RBHF')
    # whole bicycle about the rear contact point
    Txx = sum((b[n][3][0] + b[n][0] * b[n][2] ** 2 for n in 'RBHF'), Z)
    Txz = sum((b[n][3][1] - b[n][0] * b[n][1] * b[n][2] for n in 'RBHF'), Z)
    Tzz = sum((b[n][3][2] + b[n][0] * b[n][1] ** 2 for n in 'RBHF'), Z)
    # front assembly about its own mass centre
    mA, xA, zA = total('HF')
    Axx = sum((b[n][3][0] + b[n][0] * (b[n][2] - zA) ** 2 for n in 'HF'), Z)
    Axz = sum((b[n][3][1] - b[n][0] * (b[n][1] - xA) * (b[n][2] - zA) for n in 'HF'), Z)
    Azz = sum((b[n][3][2] + b[n][0] * (b[n][1] - xA) ** 2 for n in 'HF'), Z)
    uA = (xA - w - c) * c_ - zA * s
    All = mA * uA ** 2 + Axx * s ** 2 + const(2) * Axz * s * c_ + Azz * c_ ** 2
    Alx = -mA * uA * zA + Axx * s + Axz * c_
    Alz = mA * uA * xA + Axz * s + Azz * c_
    mu = c / w * c_
    SR, SF = p('IRyy') / p('rR'), p('IFyy') / p('rF')
    ST = SR + SF
    SA = mA * uA + mu * mT * xT
    M = [[Txx, Alx + mu * Txz], [Alx + mu * Txz, All + const(2) * mu * Alz + mu ** 2 * Tzz]]
    K0 = [[mT * zT, -SA], [-SA, -SA * s]]
    K2 = [[Z, (ST - mT * zT) / w * c_], [Z, (SA + SF * s) / w * c_]]
    C1 = [[Z, mu * ST + SF * c_ + Txz / w * c_ - mu * mT * zT],
          [-(mu * ST + SF * c_), Alz / w * c_ + mu * (SA + Tzz / w * c_)]]
    return M, C1, K0, K2


def mul(a, b):
    return [[sum((x * y for x, y in zip(r, c)), Z) for c in zip(*b)] for r in a]


def inv2(m):
    d = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return [[m[1][1] / d, -m[0][1] / d], [-m[1][0] / d, m[0][0] / d]]


def state_space(M, C1, K0, K2, v, g):
    """A, B of x = (phi, delta, phidot, deltadot), u = (Tphi, Tdelta)."""
    one = const(1)
    iM = inv2(M)
    K = [[g * K0[i][j] + v * v * K2[i][j] for j in range(2)] for i in range(2)]
    C = [[v * C1[i][j] for j in range(2)] for i in range(2)]
    a21, a22 = mul(iM, K), mul(iM, C)
    A = [[Z, Z, one, Z], [Z, Z, Z, one]]
    B = [[Z, Z], [Z, Z]]
    for i in range(2):
        A.append([-a21[i][0], -a21[i][1], -a22[i][0], -a22[i][1]])
        B.append([iM[i][0], iM[i][1]])
    return A, B
