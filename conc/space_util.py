import numpy as np
import fem_oracle as O


def grid_cells(rng, kind, N):
    """N cells (each its own shape)."""
    return np.array([O.random_cell(rng, kind) for _ in range(N)])


def space(*a, **kw):
    """A space, and after it another one with other data: objects of one class do not share their data."""
    sp = space_(*a, **kw)
    fam, n, Q, tr = a[1], a[2], a[3], a[5]

    class Mesh:
        points = np.array([[-900., 800.], [901., 777.], [905., -1.]])
    other = space_(np.array([[[9., 8.], [13., 8.5], [13., 11.], [8.5, 12.]]]), "jacobi" if fam != "jacobi" else "legendre", 2 if n != 2 else 3, 3 if Q != 3 else 4, a[4], "bilinear", lambda x, y: 1e3 + x,
                   {1000: np.array([[7., 7.5]]), 77: np.array([[1., 2.], [3., 4.]])}, {1000: lambda x, y: 1e4 + 0 * x, 77: lambda x, y: 3e4 + 0 * x}, {1000: "dirichlet", 77: "dirichlet"}, Mesh())
    other.get_shape_function_grad_x(0)
    other.get_forcing_function_values(0)
    return sp


def space_(cells, fam, n, Q, qt, tr, f, bpts=None, bfun=None, bcond=None, mesh=None, **kw):
    from fastvpinns.FE.fespace2d import Fespace2D
    return Fespace2D(mesh=mesh, cells=cells, boundary_points=bpts or {}, cell_type="quadrilateral", fe_order=n, fe_type=fam, quad_order=Q, quad_type=qt,
                     fe_transformation_type=tr, bound_function_dict=bfun or {}, bound_condition_dict=bcond or {}, forcing_function=f, output_path=kw.pop("output_path", "."), **kw)


def sources(rng):
    a, b, c = rng.uniform(-2, 2, 3)
    return {"wave": lambda x, y: np.sin(a * x + b) * np.cos(b * y) + c, "poly": lambda x, y: a * x ** 2 + b * x * y ** 3 + c * y, "constant": lambda x, y: 7.5,
            "zero": lambda x, y: 0.0, "tiny": lambda x, y: 1e-9 * (np.sin(a * x) + b * y), "integer": lambda x, y: np.where(3 * x > y, 3, 2), "step": lambda x, y: np.where(x > .1, 1.0, -.5), "large": lambda x, y: 1e6 * (x - y) + 1e3, "x": lambda x, y: x, "y": lambda x, y: y}
