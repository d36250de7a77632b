"""Field files: float32 matrix with N, the x axis, then y and a row of values."""
import numpy as np


def pack(z, xmin=0.0, ymin=0.0, dxdy=1.0):
    ny, nx = z.shape
    m = np.empty((ny + 1, nx + 1), np.float32)
    m[0, 0] = nx
    m[0, 1:] = np.float32(xmin) + np.float32(dxdy) * np.arange(nx, dtype=np.float32)
    m[1:, 0] = np.float32(ymin) + np.float32(dxdy) * np.arange(ny, dtype=np.float32)
    m[1:, 1:] = z
    return m.tobytes()


def unpack(b):
    """-> x, y, z (y first index); raises ValueError."""
    a = np.frombuffer(b, np.float32)
    if len(a) < 9 or len(b) % 4 or not (1 < a[0] < 1e6) or a[0] != int(a[0]) or len(a) % (int(a[0]) + 1):
        raise ValueError("not a field: %d bytes, N=%r" % (len(b), a[:1]))
    m = a.reshape(-1, int(a[0]) + 1)
    return m[0, 1:], m[1:, 0], m[1:, 1:]


def random(rng, nx=None, ny=None):
    nx, ny = nx or int(rng.integers(2, 40)), ny or int(rng.integers(2, 40))
    k = int(rng.integers(6))
    x, y = np.meshgrid(np.linspace(-1, 1, nx), np.linspace(-1, 1, ny))
    if k == 0:
        z = rng.normal(0, 10.0 ** rng.integers(-3, 4), (ny, nx))
    elif k == 1:
        z = np.sin(x * rng.uniform(1, 9) + rng.uniform(0, 6)) * np.cos(y * rng.uniform(1, 9)) * 10.0 ** rng.integers(-3, 4)
    elif k == 2:
        z = rng.integers(-4, 5, (ny, nx)).astype(float)
    elif k == 3:
        z = np.where(x * x + y * y < rng.uniform(.1, .8), 0, x * rng.normal() + y * rng.normal() + x * y * rng.normal())
    elif k == 4:
        z = y * rng.choice([1., 2.]) + 0 * x
    else:
        z = np.exp(-((x - rng.uniform(-1, 1)) ** 2 + (y - rng.uniform(-1, 1)) ** 2) * 10.0 ** rng.uniform(0, 2)) - np.exp(-(x ** 2 + y ** 2) * 5)
    return z.astype(np.float32)
