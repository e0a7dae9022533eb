"""GRIB messages made with ecCodes for generated grids, values and metadata."""
import eccodes
import mirg
import numpy as np
from hypothesis import strategies as st

PARAMS = ["2t", "msl", "sp", "10u", "tcc"]
LEVEL_PARAMS = ["t", "u", "z", "q"]

st_meta = st.fixed_dictionaries(
    dict(
        param=st.sampled_from(PARAMS + LEVEL_PARAMS),
        level=st.sampled_from([1000, 850, 500, 10]),
        step=st.sampled_from([0, 6, 24, 240]),
        date=st.sampled_from([20240101, 20231231, 19790615]),
        time=st.sampled_from([0, 600, 1200, 1800]),
        number=st.sampled_from([None, None, 1, 7]),
        edition=st.sampled_from([2, 2, 1]),
        bits=st.sampled_from([16, 24, 24, 12]),
    )
)
META_KEYS = ["shortName", "level", "typeOfLevel", "step", "date", "time", "edition"]


def st_grid():
    return st.one_of(
        st.tuples(st.just("ll"), st.sampled_from([10, 15, 18, 30, 22.5, 45]), st.sampled_from([10, 15, 18, 30, 22.5, 45])),
        st.tuples(st.just("o"), st.integers(2, 12)),
        st.just(("n", 32, 6114)),
        st.tuples(st.just("f"), st.integers(2, 8)),
        st.tuples(st.just("h"), st.integers(1, 8), st.just("ring")),
        st.tuples(st.just("h"), st.sampled_from([1, 2, 4, 8]), st.just("nested")),
    )


def st_messages(message, **sizes):
    """lists of messages, some with a message much like another one: the same values on a grid of the same size,
    other values on the same grid, the same values with other metadata"""

    def add(args):
        lst, how, k, other = args
        if not lst or how is None:
            return lst
        m = dict(lst[k % len(lst)])
        if how == "grid" and m["grid"][0] == "h" and m["grid"][1] in (1, 2, 4, 8):
            m["grid"] = m["grid"][:2] + ("nested" if m["grid"][2] == "ring" else "ring",)
        elif how == "meta":
            m["meta"] = other
        else:
            m["seed"] = m["seed"] ^ 1
        return lst + [m] if k % 2 else [m] + lst

    def healpix(args):
        lst, how, k, _ = args
        if lst and how == "grid" and lst[k % len(lst)]["grid"][0] != "h":
            lst = list(lst)
            lst[k % len(lst)] = dict(lst[k % len(lst)], grid=("h", (1, 2, 4, 8)[k % 4], ("ring", "nested")[k // 4 % 2]))
        return args[0:0] + (lst,) + tuple(args[1:])

    return st.tuples(st.lists(message, **sizes), st.sampled_from([None, None, None, "grid", "grid", "values", "meta"]), st.integers(0, 31), st_meta).map(healpix).map(add)


def message(g, values, meta):
    """the bytes of a message with the given values (packed) on a global grid"""
    k = g[0]
    # HEALPix has no edition 1 template
    edition = 2 if k == "h" else meta["edition"]
    if k == "n":
        h = eccodes.codes_grib_new_from_samples("reduced_gg_pl_32_grib%d" % edition)
    elif k == "o":
        h = eccodes.codes_grib_new_from_samples("reduced_gg_pl_32_grib%d" % edition)
    elif k == "f":
        h = eccodes.codes_grib_new_from_samples("regular_gg_pl_grib%d" % edition)
    else:
        h = eccodes.codes_grib_new_from_samples("regular_ll_pl_grib%d" % edition)

    def set_(key, value):
        eccodes.codes_set(h, key, value)

    try:
        if k == "ll":
            rows, cols = mirg.shape(g)
            north = (rows - 1) * g[2] / 2
            for key, v in dict(
                Ni=cols, Nj=rows, latitudeOfFirstGridPointInDegrees=float(north), longitudeOfFirstGridPointInDegrees=0.0,
                latitudeOfLastGridPointInDegrees=-float(north), longitudeOfLastGridPointInDegrees=360.0 - g[1],
                iDirectionIncrementInDegrees=float(g[1]), jDirectionIncrementInDegrees=float(g[2]),
            ).items():
                set_(key, v)
        elif k in "of":
            n = g[1]
            lat = float(eccodes.codes_get_gaussian_latitudes(n)[0])
            if k == "o":
                half = [20 + 4 * i for i in range(n)]
                set_("N", n)
                set_("Nj", 2 * n)
                eccodes.codes_set_array(h, "pl", half + half[::-1])
                east = 360 - 360 / max(half)
            else:
                set_("N", n)
                set_("Ni", 4 * n)
                set_("Nj", 2 * n)
                set_("iDirectionIncrementInDegrees", 360 / (4 * n))
                east = 360 - 360 / (4 * n)
            set_("latitudeOfFirstGridPointInDegrees", lat)
            set_("latitudeOfLastGridPointInDegrees", -lat)
            set_("longitudeOfFirstGridPointInDegrees", 0.0)
            set_("longitudeOfLastGridPointInDegrees", east)
        elif k == "h":
            set_("gridDefinitionTemplateNumber", 150)
            set_("Nside", g[1])
            set_("orderingConvention", g[2])
            set_("longitudeOfFirstGridPointInDegrees", 45.0)
        set_("date", meta["date"])
        set_("time", meta["time"])
        if meta["param"] in LEVEL_PARAMS:
            set_("typeOfLevel", "isobaricInhPa")
            set_("level", meta["level"])
        set_("shortName", meta["param"])
        set_("step", meta["step"])
        if meta["number"] is not None and edition == 2:
            set_("productDefinitionTemplateNumber", 1)
            set_("number", meta["number"])
            set_("shortName", meta["param"])
            if meta["param"] in LEVEL_PARAMS:
                set_("level", meta["level"])
            set_("step", meta["step"])
        set_("bitsPerValue", meta["bits"])
        values = np.array(values, dtype="float64").ravel()
        missing = np.isnan(values)
        if missing.any():
            set_("bitmapPresent", 1)
            set_("missingValue", 1e30)
            values[missing] = 1e30
        eccodes.codes_set_values(h, values)
        return bytes(eccodes.codes_get_message(h))
    finally:
        eccodes.codes_release(h)


def decode(message, *keys):
    """-> (values, {key: value}) of one message, missing values as nan"""
    h = eccodes.codes_new_from_message(bytes(message))
    try:
        # (the default missing value, 9999, may be a value of the field)
        missing = eccodes.codes_get(h, "bitmapPresent")
        if missing:
            eccodes.codes_set(h, "missingValue", 1e30)
        v = np.array(eccodes.codes_get_values(h))
        if missing:
            v[v == 1e30] = np.nan
        md = {}
        for key in keys:
            try:
                md[key] = eccodes.codes_get(h, key)
            except eccodes.KeyValueNotFoundError:
                md[key] = None
        return v, md
    finally:
        eccodes.codes_release(h)


def direct(message, out_spec, **options):
    """A MIR job on a message, configured here."""
    import io

    import mir

    out_spec = dict(out_spec)
    job = mir.Job()
    if "area" in out_spec:
        job.set("area", "/".join(repr(float(x)) for x in out_spec.pop("area")))
    job.set("grid", out_spec)
    for k, v in options.items():
        job.set(k, v)
    out = io.BytesIO()
    job.execute(mir.GribMemoryInput(message), out)
    return out.getvalue()
