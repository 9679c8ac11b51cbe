"""Published objective functions (reference definitions, analysed like the package itself)."""
import math


def Ackley(x, n):
    s = 0.0
    c = 0.0
    for i in range(n):
        s = s + x[i] * x[i]
        c = c + math.cos(2 * math.pi * x[i])
    return -20 * math.exp(-0.2 * math.sqrt(s / n)) - math.exp(c / n) + 20 + math.e


def Branin(x, n):
    a = x[1] - 5.1 / (4 * math.pi ** 2) * x[0] ** 2 + 5 / math.pi * x[0] - 6
    return a ** 2 + 10 * (1 - 1 / (8 * math.pi)) * math.cos(x[0]) + 10


def Exponential(x, n):
    s = 0.0
    for i in range(n):
        s = s + math.exp((i + 1) * x[i]) - math.exp(-5.12 * (i + 1))
    return s


def GoldsteinPrice(x, n):
    a, b = x[0], x[1]
    f = 1 + (a + b + 1) ** 2 * (19 - 14 * a + 3 * a ** 2 - 14 * b + 6 * a * b + 3 * b ** 2)
    g = 30 + (2 * a - 3 * b) ** 2 * (18 - 32 * a + 12 * a ** 2 + 48 * b - 36 * a * b + 27 * b ** 2)
    return f * g


def Griewank(x, n):
    s = 0.0
    q = 1.0
    for i in range(n):
        s = s + x[i] ** 2
        q = q * math.cos(x[i] / math.sqrt(i + 1))
    return 1 + s / 4000 - q


def Hartmann3(x, n):
    al = [1.0, 1.2, 3.0, 3.2]
    A = [[3.0, 10, 30], [0.1, 10, 35], [3.0, 10, 30], [0.1, 10, 35]]
    P = [[0.3689, 0.1170, 0.2673], [0.4699, 0.4387, 0.7470], [0.1091, 0.8732, 0.5547], [0.0381, 0.5743, 0.8828]]
    s = 0.0
    for i in range(4):
        t = 0.0
        for j in range(3):
            t = t + A[i][j] * (x[j] - P[i][j]) ** 2
        s = s + al[i] * math.exp(-t)
    return -s


def Hartmann6(x, n):
    al = [1.0, 1.2, 3.0, 3.2]
    A = [[10.0, 3.0, 17.0, 3.5, 1.7, 8.0], [0.05, 10.0, 17.0, 0.1, 8.0, 14.0],
         [3.0, 3.5, 1.7, 10.0, 17.0, 8.0], [17.0, 8.0, 0.05, 10.0, 0.1, 14.0]]
    P = [[0.1312, 0.1696, 0.5569, 0.0124, 0.8283, 0.5886], [0.2329, 0.4135, 0.8307, 0.3736, 0.1004, 0.9991],
         [0.2348, 0.1451, 0.3522, 0.2883, 0.3047, 0.6650], [0.4047, 0.8828, 0.8732, 0.5743, 0.1091, 0.0381]]
    s = 0.0
    for i in range(4):
        t = 0.0
        for j in range(6):
            t = t + A[i][j] * (x[j] - P[i][j]) ** 2
        s = s + al[i] * math.exp(-t)
    return -s


def Himmelblau(x, n):
    s = 0.0
    for i in range(n):
        s = s + x[i] ** 4 - 16 * x[i] ** 2 + 5 * x[i]
    return s / (2 * n)


def Levy(x, n):
    s = math.sin(math.pi * (1 + (x[0] - 1) / 4)) ** 2
    for i in range(n - 1):
        w = 1 + (x[i] - 1) / 4
        s = s + (w - 1) ** 2 * (1 + 10 * math.sin(math.pi * w + 1) ** 2)
    v = 1 + (x[n - 1] - 1) / 4
    return s + (v - 1) ** 2 * (1 + math.sin(2 * math.pi * v) ** 2)


def Michalewicz(x, n):
    s = 0.0
    for i in range(n):
        s = s + math.sin(x[i]) * math.sin((i + 1) * x[i] ** 2 / math.pi) ** 20
    return -s


def Perm(x, n):
    s = 0.0
    for i in range(n):
        t = 0.0
        for j in range(n):
            t = t + (j + 1 + 10) * (x[j] ** (i + 1) - (1 / (j + 1)) ** (i + 1))
        s = s + t ** 2
    return s


def Rastrigin(x, n):
    s = 10.0 * n
    for i in range(n):
        s = s + x[i] ** 2 - 10 * math.cos(2 * math.pi * x[i])
    return s


def Rosenbrock(x, n):
    s = 0.0
    for i in range(n - 1):
        s = s + 100 * (x[i] ** 2 - x[i + 1]) ** 2 + (1 - x[i]) ** 2
    return s


def Schwefel(x, n):
    s = 418.9829 * n
    for i in range(n):
        s = s - x[i] * math.sin(math.sqrt(abs(x[i])))
    return s


def SixHumpCamel(x, n):
    a, b = x[0], x[1]
    return (4 - 2.1 * a ** 2 + a ** 4 / 3) * a ** 2 + a * b + (-4 + 4 * b ** 2) * b ** 2


def Sphere(x, n):
    s = 0.0
    for i in range(n):
        s = s + x[i] ** 2
    return s


def SumOfSquares(x, n):
    s = 0.0
    for i in range(n):
        s = s + (i + 1) * x[i] ** 2
    return s


def Weierstrass(x, n):
    s = 0.0
    f0 = 0.0
    for k in range(12):
        f0 = f0 + math.cos(math.pi * 3 ** k) / 2 ** k
    for i in range(n):
        for k in range(12):
            s = s + math.cos(2 * math.pi * 3 ** k * (x[i] + 0.5)) / 2 ** k
    return 10 * (s / n - f0) ** 3


def Zakharov(x, n):
    a = 0.0
    b = 0.0
    for i in range(n):
        a = a + x[i] ** 2
        b = b + (i + 1) * x[i] / 2
    return a + b ** 2 + b ** 4
