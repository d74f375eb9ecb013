"""public attributes of the classes that the models stand for; one that a model lacks is outside the encoding,
not an error of the code"""
from .sym import Unsupported

NAMES = {
    "series": set("""T abs add add_prefix add_suffix agg aggregate align all any apply argmax argmin argsort array asfreq asof
astype at at_time attrs autocorr axes backfill between between_time bfill bool cat clip combine combine_first
compare convert_dtypes copy corr count cov cummax cummin cumprod cumsum describe diff div divide divmod dot
drop drop_duplicates droplevel dropna dt dtype dtypes duplicated empty eq equals ewm expanding explode
factorize ffill fillna filter first first_valid_index flags floordiv ge get groupby gt hasnans head hist iat
idxmax idxmin iloc index infer_objects info interpolate is_monotonic_decreasing is_monotonic_increasing
is_unique isin isna isnull item items keys kurt kurtosis last last_valid_index le loc lt map mask max mean
median memory_usage min mod mode mul multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pad
pct_change pipe plot pop pow prod product quantile radd rank ravel rdiv rdivmod reindex reindex_like rename
rename_axis reorder_levels repeat replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub
rtruediv sample searchsorted sem set_axis set_flags shape shift size skew sort_index sort_values sparse
squeeze std str sub subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_frame
to_hdf to_json to_latex to_list to_markdown to_numpy to_period to_pickle to_sql to_string to_timestamp
to_xarray tolist transform transpose truediv truncate tz_convert tz_localize unique unstack update
value_counts values var view where xs""".split()),
    "index": set("""T all any append argmax argmin argsort array as_unit asi8 asof asof_locs astype ceil copy date day day_name
day_of_week day_of_year dayofweek dayofyear days_in_month daysinmonth delete diff difference drop
drop_duplicates droplevel dropna dtype duplicated empty equals factorize fillna floor format freq freqstr
get_indexer get_indexer_for get_indexer_non_unique get_level_values get_loc get_slice_bound groupby
has_duplicates hasnans holds_integer hour identical indexer_at_time indexer_between_time infer_objects
inferred_freq inferred_type insert intersection is_ is_boolean is_categorical is_floating is_integer
is_interval is_leap_year is_monotonic_decreasing is_monotonic_increasing is_month_end is_month_start
is_normalized is_numeric is_object is_quarter_end is_quarter_start is_unique is_year_end is_year_start isin
isna isnull isocalendar item join map max mean memory_usage microsecond min minute month month_name name names
nanosecond nbytes ndim nlevels normalize notna notnull nunique putmask quarter ravel reindex rename repeat
resolution round searchsorted second set_names shape shift size slice_indexer slice_locs snap sort sort_values
sortlevel std str strftime symmetric_difference take time timetz to_flat_index to_frame to_julian_date to_list
to_numpy to_period to_pydatetime to_series tolist transpose tz tz_convert tz_localize tzinfo union unique unit
value_counts values view weekday where year""".split()),
    "array": set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy
ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset
itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize
round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile
tolist tostring trace transpose var view""".split()),
    "scalar": set("""T all any argmax argmin argsort as_integer_ratio astype base bit_count byteswap choose clip compress conj
conjugate copy cumprod cumsum data denominator diagonal dtype dump dumps fill flags flat flatten fromhex
getfield hex imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero numerator
prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std
strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view""".split()),
    "date": set("""as_unit asm8 astimezone ceil combine ctime date day day_name day_of_week day_of_year dayofweek dayofyear
days_in_month daysinmonth dst floor fold fromisocalendar fromisoformat fromordinal fromtimestamp hour
is_leap_year is_month_end is_month_start is_quarter_end is_quarter_start is_year_end is_year_start isocalendar
isoformat isoweekday max microsecond min minute month month_name nanosecond normalize now quarter replace
resolution round second strftime strptime time timestamp timetuple timetz to_datetime64 to_julian_date
to_numpy to_period to_pydatetime today toordinal tz tz_convert tz_localize tzinfo tzname unit utcfromtimestamp
utcnow utcoffset utctimetuple value week weekday weekofyear year""".split()),
    "delta": set("""as_unit asm8 ceil components days floor isoformat max microseconds min nanoseconds resolution
resolution_string round seconds to_numpy to_pytimedelta to_timedelta64 total_seconds unit value view""".split()),
    "frame": set("""T abs add add_prefix add_suffix agg aggregate align all any apply applymap asfreq asof assign astype at
at_time attrs axes backfill between_time bfill bool boxplot clip columns combine combine_first compare
convert_dtypes copy corr corrwith count cov cummax cummin cumprod cumsum describe diff div divide dot drop
drop_duplicates droplevel dropna dtypes duplicated empty eq equals eval ewm expanding explode ffill fillna
filter first first_valid_index flags floordiv from_dict from_records ge get groupby gt head hist iat idxmax
idxmin iloc index infer_objects info insert interpolate isetitem isin isna isnull items iterrows itertuples
join keys kurt kurtosis last last_valid_index le loc lt map mask max mean median melt memory_usage merge min
mod mode mul multiply ndim ne nlargest notna notnull nsmallest nunique pad pct_change pipe pivot pivot_table
plot pop pow prod product quantile query radd rank rdiv reindex reindex_like rename rename_axis reorder_levels
replace resample reset_index rfloordiv rmod rmul rolling round rpow rsub rtruediv sample select_dtypes sem
set_axis set_flags set_index shape shift size skew sort_index sort_values sparse squeeze stack std style sub
subtract sum swapaxes swaplevel tail take to_clipboard to_csv to_dict to_excel to_feather to_gbq to_hdf
to_html to_json to_latex to_markdown to_numpy to_orc to_parquet to_period to_pickle to_records to_sql to_stata
to_string to_timestamp to_xarray to_xml transform transpose truediv truncate tz_convert tz_localize unstack
update value_counts values var where xs""".split()),
}


def lacking(cls, kind):
    """let attributes of the real class that the model `cls` lacks leave the encoding"""
    names = NAMES[kind]
    orig = cls.__dict__.get("__getattr__")

    def __getattr__(self, n):
        if orig is not None:
            try:
                return orig(self, n)
            except AttributeError:
                pass
        if n in names and not n.startswith("_"):
            raise Unsupported("%s.%s" % (kind, n))
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, n))

    cls.__getattr__ = __getattr__
    return cls


ANY = object()
HARMLESS = {
    "order": ("C", "K", "A", None), "keepdims": (False,), "skipna": (True, None), "numeric_only": (False, True, None), "copy": ANY, "subok": ANY, "like": (None,), "kind": ANY, "out": (None,),
    "dtype": (None, float, int), "casting": ANY, "axis": (0, None, "index"), "inplace": (False,), "deep": ANY, "engine": ANY, "device": (None,), "min_count": (0, -1), "level": (None,), "errors": ("raise",),
    "method": (None,), "limit": (None,), "sep": (",",), "ddof": (0,), "na_position": ("last",), "key": (None,), "sort": (False,), "downcast": (None,), "ascending": (True,),
    "endpoint": (True,), "retstep": (False,), "equal_nan": ANY, "n": (1,), "where": (True,), "ndmin": (0,), "float_format": (None,), "header": (True,), "columns": (None,), "encoding": ANY, "mode": ("w",),
    "group_keys": ANY, "observed": ANY, "as_index": (True,), "names": (None,), "verify_integrity": ANY, "coerce_float": (False,), "merge_cells": ANY, "freeze_panes": ANY, "na_rep": ("",), "line_terminator": (None,),
    "ignore_index": ANY, "assume_unique": ANY, "invert": (False,), "return_index": (False,), "return_inverse": (False,), "return_counts": (False,), "posinf": (None,), "neginf": (None,), "index": (True,),
}


def _harmless(n, v):
    ok = HARMLESS.get(n)
    return ok is ANY or ok is not None and any(v is x or type(v) is type(x) and v == x for x in ok)


def _strict(f, name):
    """a model that takes options without looking at them leaves the encoding if one may change the result"""
    import functools
    import inspect
    import dis

    co = f.__code__
    names = co.co_varnames[: co.co_argcount + co.co_kwonlyargcount]
    va = co.co_varnames[co.co_argcount + co.co_kwonlyargcount] if co.co_flags & inspect.CO_VARARGS else None
    kw = co.co_varnames[co.co_argcount + co.co_kwonlyargcount + (va is not None)] if co.co_flags & inspect.CO_VARKEYWORDS else None
    used = {i.argval for i in dis.get_instructions(co) if i.opname.startswith(("LOAD", "STORE"))} | set(co.co_cellvars)
    used = {x for u in used for x in (u if isinstance(u, tuple) else (u,))}
    va = va if va is not None and va not in used else None
    kw = kw if kw is not None and kw not in used else None
    # options given by name or position that are not looked at either
    npos = co.co_argcount
    idle = {n: k for k, n in enumerate(names) if n not in used and n not in ("self", "cls") and k >= npos - len(f.__defaults__ or ())}
    if va is None and kw is None and not idle:
        return f

    @functools.wraps(f)
    def g(*a, **k):
        if va is not None:
            for v in a[npos:]:
                if not any(v is x or type(v) is type(x) and v == x for x in (0, None, "C", float)):
                    raise Unsupported("%s with an option" % name)
        if kw is not None:
            for n, v in k.items():
                if n not in names and not _harmless(n, v):
                    raise Unsupported("%s with %s" % (name, n))
        for n, i in idle.items():
            v = k[n] if n in k else a[i] if i < len(a) else None
            if v is not None and not _harmless(n, v):
                raise Unsupported("%s with %s" % (name, n))
        return f(*a, **k)

    return g


SKIP = {"plot", "to_string", "__init__", "_missing", "warn"}


def strict(ns):
    """apply to the functions and classes of a module"""
    import types

    mod = ns["__name__"]
    for n, o in list(ns.items()):
        if getattr(o, "__module__", None) != mod or n in SKIP:
            continue
        if isinstance(o, types.FunctionType) and not n.startswith("_"):
            ns[n] = _strict(o, n)
        elif isinstance(o, type):
            for m, f in list(vars(o).items()):
                if m in SKIP or m.startswith("__"):
                    continue
                if isinstance(f, types.FunctionType):
                    setattr(o, m, _strict(f, "%s.%s" % (o.__name__, m)))
                elif isinstance(f, (classmethod, staticmethod)):
                    setattr(o, m, type(f)(_strict(f.__func__, "%s.%s" % (o.__name__, m))))
