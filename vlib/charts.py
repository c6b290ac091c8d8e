"""Charts that are shown instead of returned (static=False, the default)."""
import contextlib
import io

from vlib.runner import expect


def shown(draw):
    """The chart that draw() shows, in the form of a static one."""
    import plotly.graph_objs as go
    import plotly.io as pio
    from plotly.io.base_renderers import ExternalRenderer

    got = []

    class Catch(ExternalRenderer):
        def render(self, fig_dict):
            got.append(fig_dict)

    names = [n for n in ("plotly_mimetype", "notebook_connected", "browser")]
    kept = {n: pio.renderers[n] for n in names}
    default = pio.renderers.default
    try:
        for n in names:
            pio.renderers[n] = Catch()
        pio.renderers.default = "browser"
        with contextlib.redirect_stdout(io.StringIO()):
            out = draw()
    finally:
        for n, r in kept.items():
            pio.renderers[n] = r
        pio.renderers.default = default
    if not got and isinstance(out, go.Figure):
        return {"data": out.data, "layout": out.layout}
    expect(got, "no chart was shown")
    fig = go.Figure({"data": got[-1]["data"], "layout": {k: v for k, v in got[-1]["layout"].items() if k != "template"}})
    return {"data": fig.data, "layout": fig.layout}
