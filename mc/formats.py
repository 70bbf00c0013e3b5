"""Independent encoders for the file formats the library reads.

There are no sample files offline, so every format is written here from its
layout.  Each maker writes one file (or directory) below `d` and returns
`(path, [Want, ...])`: what the file holds, computed without dascore.
"""
from __future__ import annotations

import os
import struct
from dataclasses import dataclass, field
from pathlib import Path

import h5py
import numpy as np

T0 = np.datetime64("2020-01-02T03:04:05", "ns")
T0S = 1577934245.0
NT, ND = 5, 3


@dataclass
class Want:
    dims: tuple
    data: np.ndarray
    coords: dict
    fmt: str = ""
    version: str = ""
    units: dict = field(default_factory=dict)
    attrs: dict = field(default_factory=dict)


def values(shape, dtype="f4"):
    n = int(np.prod(shape))
    return ((np.arange(n) * 7 + 3) % 23 + 100 * np.arange(n)).reshape(shape).astype(dtype)


def times(n=NT, dt=0.25, t0=T0):
    return t0 + (np.arange(n) * round(dt * 1e9)).astype("m8[ns]")


def dist(n=ND, dx=2.0, start=0.0):
    return start + np.arange(n) * dx


# ---------------------------------------------------------------- HDF5 formats
def terra15(d, version="5", clock="gps_time", incomplete=0, dt=0.25, order="time"):
    path = Path(d) / f"terra15_{version}_{clock}_{incomplete}.hdf5"
    data = values((NT + incomplete, ND))
    with h5py.File(path, "w") as f:
        product = "velocity"
        f.attrs.update(
            dict(
                acoustic_bandwidth_end=1.0, amplifier_incoming_current=1.0, file_start_computer_time=1.0, file_version=int(version),
                sensing_range_start=10.0, dx=2.5, nx=ND, data_product=product, serial_number="X1", data_product_units="m/s",
                pulse_rate=100.0, pulse_length=20.0, gauge_length=5.0,
            )
        )
        g = f.create_group(product if version == "4" else "data_product")
        g["data"] = data
        t = np.concatenate([T0S + np.arange(NT) * dt, np.zeros(incomplete)])
        g[clock] = t
        if clock == "gps_time":
            g["posix_time"] = t + 1
    return path, [Want(("time", "distance"), data[:NT], dict(time=times(dt=dt), distance=dist(dx=2.5, start=10.0)), "TERRA15", version, dict(distance="m"),
                       dict(instrument_id="X1", data_units="m/s", gauge_length=5.0, data_type="velocity"))]


def dashdf5(d, order="channel", uneven=False):
    path = Path(d) / f"dashdf5_{order}_{uneven}.hdf5"
    data = values((ND, NT))
    t = T0S + np.arange(NT) * 0.25
    if uneven:
        t[2] += 0.05
    with h5py.File(path, "w") as f:
        f.attrs["Conventions"] = ["CF-1.7", "DAS-HDF5-1.0"]
        f["channel"] = np.arange(ND) * 2 + 4
        f["trace"] = np.arange(NT) + 100
        f["t"] = t
        for i, n in enumerate("xyz"):
            f[n] = np.arange(ND) * (i + 1.0) + i
            f[n].attrs["units"] = "m"
        f["das"] = data if order == "channel" else data.T
        f["das"].attrs["long_name"] = "strain rate"
        f.create_group("crs").attrs["epsg_code"] = "EPSG:1"
        f.attrs["project"] = "proj"
    dims = ("channel", "time") if order == "channel" else ("time", "channel")
    co = dict(channel=np.arange(ND) * 2 + 4, time=T0 + np.round((t - T0S) * 1e9).astype("m8[ns]"), trace=np.arange(NT) + 100,
              x=np.arange(ND) * 1.0, y=np.arange(ND) * 2.0 + 1, z=np.arange(ND) * 3.0 + 2)
    return path, [Want(dims, data if order == "channel" else data.T, co, "DASHDF5", "1.0", dict(x="m", y="m", z="m"))]


def gdr(d, order="time", dtype="f4"):
    path = Path(d) / f"gdr_{order}_{dtype}.h5"
    data = values((NT, ND), dtype)
    with h5py.File(path, "w") as f:
        acq = f.create_group("DasMetadata/Interrogator/Acquisition")
        f["DasMetadata"].attrs.update(MetadataStandard="DAS-RCN v1.10", RawDataStandard="PRODML v2.2")
        f["DasMetadata/Interrogator"].attrs["SerialNumber"] = "SN1"
        acq.attrs.update(GaugeLength=7.0, GaugeLengthUnit="m", UnitOfMeasure="m/s", SpatialSamplingInterval=2.0, SpatialSamplingIntervalUnit="m")
        f["DasRawData/DasTimeArray"] = times().astype("i8")
        ds = f["DasRawData"].create_dataset("RawData", data=data if order == "time" else data.T)
        ds.attrs["DasDimensions"] = ["time", "locus"] if order == "time" else ["locus", "time"]
    dims = ("time", "distance") if order == "time" else ("distance", "time")
    return path, [Want(dims, data if order == "time" else data.T, dict(time=times(), distance=dist()), "GDR_DAS", "1", dict(distance="m"), dict(instrument_id="SN1", gauge_length=7.0, data_units="m/s"))]


def h5simple(d, data_name="data", time_name="time", other="distance", dims="", order="time", uneven=False):
    path = Path(d) / f"h5simple_{data_name}_{time_name}_{other}_{dims}_{order}.h5"
    data = values((NT, ND))
    with h5py.File(path, "w") as f:
        f[data_name] = data if order == "time" else data.T
        f[time_name] = T0S + np.arange(NT) * 0.25
        if other:
            f[other] = dist(start=1.0) if other == "distance" else np.arange(ND)
        if dims:
            f.attrs["dims"] = dims
    name = other or "channel"
    od = ("time", name) if order == "time" else (name, "time")
    co = {"time": times(), name: dist(start=1.0) if other == "distance" else np.arange(ND)}
    return path, [Want(od, data if order == "time" else data.T, co, "H5Simple", "1")]


def optodas(d, version="8", order="time", dtype="f4", first=0):
    path = Path(d) / f"optodas_{version}_{order}_{first}.hdf5"
    data = values((NT, ND), dtype)
    ch = np.arange(ND) * 4 + 8
    with h5py.File(path, "w") as f:
        f.create_group("acqSpec")
        f.create_group("cableSpec")
        f["fileVersion"] = int(version)
        f["data"] = data if order == "time" else data.T
        h = f.create_group("header")
        names = ["time", "distance"] if order == "time" else ["distance", "time"]
        h["dimensionNames"] = [n.encode() for n in names]
        h["dimensionUnits"] = [dict(time=b"s", distance=b"m")[n] for n in names]
        for i, n in enumerate(names):
            r = h.create_group(f"dimensionRanges/dimension{i}")
            r["unitScale"] = 0.25 if n == "time" else 1.5
            r["min"] = first if n == "time" else int(ch[0])
            r["max"] = first + NT - 1 if n == "time" else int(ch[-1])
            r["size"] = NT if n == "time" else ND
        h["time"] = T0S
        h["channels"] = ch
        h["gaugeLength"] = 8.0
        h["unit"] = b"rad/m/s"
        h["instrument"] = b"I1"
        h["experiment"] = b"E1"
    return path, [Want(tuple(names), data if order == "time" else data.T, dict(time=times(t0=T0 + np.timedelta64(250 * first, "ms")), distance=ch * 1.5), "OptoDAS", version, {},
                       dict(gauge_length=8.0, instrument_id="I1", acquisition_id="E1"))]


def silixah5(d, clock="gps", dtype="i2"):
    path = Path(d) / f"silixa_{clock}_{dtype}.h5"
    data = values((NT, ND), dtype)
    with h5py.File(path, "w") as f:
        ds = f.create_dataset("Acoustic", data=data)
        stamp = "02/01/2020 03:04:05.000 (UTC)"
        attrs = {
            "GaugeLength": 10.0, "SamplingFrequency[Hz]": 4.0, "Fibre Length Multiplier": 1.0, "Start Distance (m)": 0.0, "Stop Distance (m)": 6.0,
            "Fibre Length per Metre": 1.0, "GPSTimeStamp": stamp if clock == "gps" else "NaT", "CPUTimeStamp": stamp, "Tags": "tag1", "PulseWidth[ns]": 50.0,
            "MeasureLength[m]": 6.0, "StartPosition[m]": 0.0, "SpatialResolution[m]": 2.0, "SystemInfomation.Devices1.SerialNum": "SER",
        }
        ds.attrs.update(attrs)
    return path, [Want(("time", "distance"), data, dict(time=times(), distance=dist(start=6.0)), "Silixa_H5", "1", dict(distance="m"), dict(gauge_length=10.0, pulse_width=50.0, instrument_id="SER", tag="tag1"))]


def neubrex_das(d, clock="gps"):
    path = Path(d) / f"neubrex_das_{clock}.h5"
    data = values((NT, ND))
    with h5py.File(path, "w") as f:
        ds = f.create_dataset("Acoustic", data=data)
        ds.attrs.update(
            {
                "NEUBRESCOPE.DAS.Model": "M", "NEUBRESCOPE.DAS.SerialNum": "SN", "StartPosition": 4.0, "StopPosition": 10.0, "SpatialSamplingInterval": 2.0, "StartStopPositionUnit": "m",
                "GPSTimeStamp(UTC)": b"2020-01-02T03:04:05" if clock == "gps" else b"", "CPUTimeStamp(UTC)": b"2020-01-02T03:04:05", "TimeSamplingInterval(seconds)": 0.25,
                "TimeDecimationFilter": 0, "DistanceDecimationFilter": 0, "GaugeLength": 5.0, "GaugeLengthUnits": "m", "IndexOfRefraction": 1.46,
                "PhaseToStrainConversion(MicroStrainPerRadian)": 0.1, "DataPhysicalUnit": "micro-strain",
            }
        )
    return path, [Want(("time", "distance"), data, dict(time=times(), distance=dist(start=4.0)), "NeubrexDAS", "1", dict(distance="m"), dict(gauge_length=5.0, instrument_id="SN"))]


def neubrex_rfs(d):
    path = Path(d) / "neubrex_rfs.h5"
    data = values((NT, ND))
    with h5py.File(path, "w") as f:
        ds = f.create_dataset("data", data=data)
        ds.attrs.update(DataUnitLabel="micro-strain", StartDateTime="x", EndDateTime="y", API="a", FieldName="f", WellID="w", WellName="n", WellBoreID="b")
        f["depth"] = dist(start=1.0, dx=0.5)
        f["stamps"] = np.arange(NT)
        f["stamps_unix"] = (T0S + np.arange(NT) * 0.25) * 1_000_000
    return path, [Want(("time", "distance"), data, dict(time=times(), distance=dist(start=1.0, dx=0.5)), "NeubrexRFS", "1", {}, dict(api="a", well_id="w"))]


def prodml(d, version="2.0", order="time", fbe=0, raws=1, badend=False):
    path = Path(d) / f"prodml_{version}_{order}_{fbe}_{raws}_{badend}.h5"
    wants = []
    iso = lambda t: str(t.astype("M8[us]")) + ("Z" if version == "2.0" else "+00:00")
    with h5py.File(path, "w") as f:
        acq = f.create_group("Acquisition")
        unit = "SpatialSamplingIntervalUnit" if version == "2.0" else "SpatialSamplingInterval.uom"
        acq.attrs.update({"PulseRate": 10.0, "PulseWidth": 20.0, "PulseWidthUnit": "ns", "NumberOfLoci": ND, "schemaVersion": version, "uuid": "u", "SpatialSamplingInterval": 2.0, unit: "m",
                          "StartLocusIndex": 3, "GaugeLength": 5.0, "GaugeLengthUnit": "m"})
        dims = ("time", "distance") if order == "time" else ("distance", "time")
        names = [dict(time="time", distance="locus")[n] for n in dims]
        full_d = dist(start=6.0)
        for b in range(fbe):
            g = f.require_group("Acquisition/Processed/Fbe[0]")
            g.attrs.update(StartLocusIndex=1, NumberOfLoci=2, RawReference="r", TransformSize=4.0, TransformType="fft", WindowFunction="hann", WindowOverlap=1, WindowSize=4)
            g.attrs["Dimensions"] = [n.encode() for n in names]
            t = times(4, 0.5)
            if "FbeDataTime" not in g:
                g["FbeDataTime"] = t.astype("M8[us]").astype("i8")
                g["FbeDataTime"].attrs.update(PartStartTime=iso(t[0]), PartEndTime=iso(t[-1]))
            x = values((4, 2)) + b
            ds = g.create_dataset(f"FbeData[{b}]", data=x if order == "time" else x.T)
            ds.attrs.update(StartFrequency=b * 10.0, EndFrequency=b * 10.0 + 5, FbeDataUnit="m/s")
            wants.append(Want(dims, x if order == "time" else x.T, dict(time=t, distance=full_d[1:3]), "PRODML", version, dict(distance="m", time="s"), dict(start_frequency=b * 10.0)))
        for r in range(raws):
            g = acq.create_group(f"Raw[{r}]")
            t = times(t0=T0 + np.timedelta64(10 * r, "s"))
            x = values((NT, ND)) + r
            g["RawData"] = x if order == "time" else x.T
            g["RawData"].attrs["Dimensions"] = ", ".join(names)
            g["RawDataTime"] = t.astype("M8[us]").astype("i8")
            end = t[-1] + (np.timedelta64(250, "ms") if badend else np.timedelta64(0, "ms"))
            g["RawDataTime"].attrs.update(PartStartTime=iso(t[0]), PartEndTime=iso(end))
            g.attrs.update(RawDescription="Strain Rate", RawDataUnit="m/s")
            wants.append(Want(dims, x if order == "time" else x.T, dict(time=t, distance=full_d), "PRODML", version, dict(distance="m"), dict(gauge_length=5.0, pulse_width=20.0)))
    return path, wants


def ap_sensing(d, dtype="f4"):
    path = Path(d) / f"ap_{dtype}.hdf5"
    data = values((NT, ND), dtype)
    with h5py.File(path, "w") as f:
        f.attrs.update(AppVersion="1", FileVersion=10, OpticalChannelNumber=1)
        for g in ("DAQ", "Interrogator", "Metadata", "ProcessingServer"):
            f.create_group(g)
        f["DAS"] = data
        f["ProcessingServer/DataRate"] = [4.0]
        f["ProcessingServer/GaugeLength"] = [10.0]
        f["ProcessingServer/RadiansToNanoStrain"] = [2.0]
        f["Metadata/Timestamp"] = [b"2020-01-02T03:04:05"]
        f["Metadata/Timezone"] = [b"UTC"]
        f["Metadata/TraceCount"] = [NT]
        f["DAQ/PositionStart"] = [4.0]
        f["DAQ/PositionEnd"] = [10.0]
        f["DAQ/SerialNumber"] = [b"SN"]
    return path, [Want(("time", "distance"), data, dict(time=times(), distance=dist(start=4.0)), "APSensing", "10", dict(distance="m", time="s"), dict(gauge_length=10.0, radians_to_nano_strain=2.0))]


def febus_a1(d, version="2.1", nblocks=3, overlap=0, zones=1, blockrate=True, dt=0.25):
    """Blocks of 4 new rows; `overlap` rows in front/behind of the block are padding."""
    path = Path(d) / f"febus_{version}_{nblocks}_{overlap}_{zones}_{blockrate}.h5"
    new = 4
    pad = new + 2 * overlap
    wants = []
    with h5py.File(path, "w") as f:
        src = f.create_group("fa1-1/Source1")
        sattrs = dict(AmpliPower=1.0, Hostname="h", WholeExtent=np.arange(4), SamplingRate=1.0)
        if version:
            sattrs["Version"] = version
        src.attrs.update(sattrs)
        src["time"] = T0S + np.arange(nblocks) * new * dt + overlap * dt
        for z in range(zones):
            zone = src.create_group(f"Zone{z + 1}")
            attrs = dict(Extent=np.array([2, 2 + ND - 1, 0, pad - 1]), Spacing=np.array([2.0, dt * 1000]), Origin=np.array([1.0, -overlap * dt * 1000 * 2]), GaugeLength=5.0, PulseWidth=3.0,
                         SamplingRate=1 / dt, Overlap=100.0 * (pad - new) / new)
            attrs["Origin"] = np.array([1.0, -overlap * dt * 1000])
            if version:
                attrs["Version"] = version
            if blockrate:
                attrs["BlockRate"] = 1000.0 / (new * dt)
            zone.attrs.update(attrs)
            cube = values((nblocks, pad, ND)) + 1000 * z
            zone["StrainRate"] = cube
            q, r = divmod(pad - new, 2)
            flat = cube[:, q:pad - (q + r)].reshape(-1, ND)
            t0 = T0 + np.timedelta64(round((overlap * dt - overlap * dt + q * dt) * 1e9), "ns")
            wants.append(Want(("time", "distance"), flat, dict(time=times(nblocks * new, dt, t0), distance=dist(start=2 * 2.0 + 1.0)), "febus", version.split(".")[0] if version else "1", dict(distance="m"),
                              dict(gauge_length=5.0, zone=f"Zone{z + 1}")))
    return path, wants


def _g1_common(f):
    f["start_times"] = T0S + np.arange(NT) * 0.25
    f["end_times"] = T0S + np.arange(NT) * 0.25 + 0.2
    f["distances"] = dist(start=3.0)
    f["temperatures"] = 20.0 + np.arange(NT)
    f.attrs.update(formatVersion=1, channel=1, fiberFrom=3.0, fiberTo=9.0, mode=1, freq_offset_abs=10000.0, freq_step=2.0, average=5)


def febus_mtx(d):
    path = Path(d) / "febus_mtx.h5"
    data = values((NT, ND, 4))
    with h5py.File(path, "w") as f:
        _g1_common(f)
        f["mtx"] = data
    return path, [Want(("time", "distance", "frequency"), data, dict(time=times(), distance=dist(start=3.0), frequency=10000.0 + 2 * np.arange(4), temperature=20.0 + np.arange(NT)), "febus_mtx_h5", "1", dict(distance="m", frequency="MHz"))]


def febus_bsl(d):
    path = Path(d) / "febus_bsl.h5"
    data = values((NT, ND))
    with h5py.File(path, "w") as f:
        _g1_common(f)
        f["bsl_data"] = data
    return path, [Want(("time", "distance"), data, dict(time=times(), distance=dist(start=3.0), temperature=20.0 + np.arange(NT)), "febus_bsl_h5", "1", dict(distance="m"))]


def febus_t1(d, uneven=False):
    path = Path(d) / f"febus_t1_{uneven}.h5"
    data = values((NT, ND))
    # labels which survive seconds * 1e9 in float64 (spacing 256 ns) exactly
    t = T0S + np.arange(NT) * 0.2
    if uneven:
        t[3] += 0.1
    with h5py.File(path, "w") as f:
        f["Data/Temperature"] = data
        f["Data/Distance"] = dist(start=3.0)
        f["Data/DistanceSignal"] = dist(7)
        f["Data/Time"] = t[:, None]
    return path, [Want(("time", "distance"), data, dict(time=T0 + (np.round((t - T0S) * 10) * 1e8).astype("m8[ns]"), distance=dist(start=3.0)), "FEBUS_T1", "1", dict(distance="m"))]


def febus_g1_csv(d):
    path = Path(d) / "fib_1_2020-01-02T03.04.05.bsl"
    data = values((ND, 1), "f8")
    head = [("start time", T0S), ("end time", T0S + 2), ("mode", "strain"), ("channel", 1), ("fiberFrom", 3.0), ("fiberTo", 9.0), ("sampling resolution", 2.0), ("ampliPower", 4.5)]
    with open(path, "w") as f:
        for k, v in head:
            f.write(f"Param;{k};{v}\n")
        for v in data[:, 0]:
            f.write(f"{v}\n")
    return path, [Want(("distance", "time"), data, dict(distance=dist(start=3.0), time=times(1)), "febus_g1_csv", "1", dict(distance="m"))]


def dasvader(d, data_name="data", attrib=True, ref=1):
    path = Path(d) / f"dasvader_{data_name}_{attrib}_{ref}.jld2"
    tp = np.dtype([("hi", "<f8"), ("lo", "<f8")])
    sr = np.dtype([("ref", tp), ("step", tp), ("len", "<i8"), ("offset", "<i8")])
    fields = [(data_name, h5py.ref_dtype), ("time", sr), ("htime", h5py.ref_dtype), ("offset", sr)]
    if attrib:
        fields.append(("atrib", h5py.ref_dtype))
    first = data_name == "data"
    data = values((ND, NT) if first else (NT, ND))
    with h5py.File(path, "w") as f:
        ds = f.create_dataset(data_name, data=data)
        ht = f.create_dataset("htime", data=np.array([62135683200000 + int(T0S * 1000)], dtype="i8"))
        rec = np.zeros((), dtype=np.dtype(fields))
        rec[data_name] = ds.ref
        rec["htime"] = ht.ref
        # element number `offset` (1 based) has the value `ref`
        rec["time"]["ref"]["hi"], rec["time"]["step"]["hi"], rec["time"]["len"], rec["time"]["offset"] = (ref - 1) * 0.25, 0.25, NT, ref
        rec["offset"]["ref"]["hi"], rec["offset"]["step"]["hi"], rec["offset"]["len"], rec["offset"]["offset"] = 5.0 + (ref - 1) * 2.0, 2.0, ND, ref
        if attrib:
            gl = f.create_dataset("gauge", data=np.array(10.0))
            hn = f.create_dataset("host", data=b"hn")
            adt = np.dtype([("GaugeLength", h5py.ref_dtype), ("Hostname", h5py.ref_dtype), ("PulseRateFreq", "<f8")])
            a = np.zeros((), dtype=adt)
            a["GaugeLength"], a["Hostname"], a["PulseRateFreq"] = gl.ref, hn.ref, 5000.0
            ads = f.create_dataset("atribds", data=a, dtype=adt)
            rec["atrib"] = ads.ref
        f.create_dataset("dDAS", data=rec, dtype=np.dtype(fields))
    return path, [Want(("distance", "time") if first else ("time", "distance"), data, dict(time=times(), distance=dist(start=5.0)), "DASVader", "1")]


# ---------------------------------------------------------------- binary formats
def sentek(d, rate=1):
    """Values at the offsets the format's reader defines (float32 words)."""
    path = Path(d) / "DASDMSShot00_20200102030405000.das"
    nd, nt = 8, 12  # header words 0..5 come before the first distance (word 6)
    words = np.zeros(nt + nd * nt, dtype="<f4")
    words[:6] = nd, nt, 0, rate, 0, 1
    words[6] = 4.0          # first distance
    words[nd - 1] = 20.0    # distance stop
    words[nd] = 0.0         # first offset
    words[nt - 1] = 3.0     # time stop
    data = values((nt, nd))
    words[nt:] = data.reshape(-1)
    words.tofile(path)
    return path, [Want(("distance", "time"), data.T, dict(distance=dist(nd, 2.0, 4.0), time=times(nt)), "sentek", "5")]


def sintela(d, packets=2, kind=4):
    path = Path(d) / f"sintela_{packets}_{kind}.raw"
    from dascore.io.sintela_binary.utils import _HEADER_DTYPES, base_header_dtypes  # layout description only

    ns = 3
    data = values((packets * ns, ND))
    with open(path, "wb") as f:
        for p in range(packets):
            base = np.zeros(1, base_header_dtypes)
            base["sync_word"], base["header_size"], base["version"] = 0x11223344, base_header_dtypes.itemsize + _HEADER_DTYPES["3"].itemsize, 3
            h = np.zeros(1, _HEADER_DTYPES["3"])
            h["start_time_ns"] = T0.astype("i8") + p * ns * 250_000_000
            h["num_channels"], h["num_samples"], h["sample_rate"], h["channel_spacing"], h["gauge_length"] = ND, ns, 4.0, 1.0, 6.0
            h["start_channel"], h["channel_step"], h["data_type"], h["sample_count"] = 5, 2, kind, p * ns
            f.write(base.tobytes() + h.tobytes() + data[p * ns:(p + 1) * ns].astype("<f4").tobytes())
    kinds = {0: "phase", 3: "strain", 4: "strain_rate"}
    return path, [Want(("time", "distance"), data, dict(time=times(packets * ns), distance=dist(start=5.0)), "Sintela_Binary", "3", dict(distance="m"), dict(gauge_length=6.0, data_type=kinds[kind]))]


def sr4731(d, n=7):
    path = Path(d) / f"otdr_{n}.sor"
    raw = (np.arange(n) * 37 % 101 + 5).astype("<u2")
    c = lambda s: s.encode() + b"\0"
    gen = c("GenParams") + c("EN") + c("cable")
    sup = c("SupParams") + c("maker") + c("model") + c("sn1")
    fxd = bytearray(48)
    struct.pack_into("<I", fxd, 0, int(T0S))
    fxd[4:6] = b"km"
    struct.pack_into("<H", fxd, 6, 15500)
    struct.pack_into("<I", fxd, 20, 1_000_000)  # 0.01 us
    struct.pack_into("<I", fxd, 24, n)
    struct.pack_into("<I", fxd, 28, 146800)
    struct.pack_into("<I", fxd, 40, 1000)
    fx = c("FxdParams") + bytes(fxd)
    dat = c("DataPts") + struct.pack("<IHIH", n, 1, n, 1000) + raw.tobytes()
    ck = c("Cksum") + b"\0\0"
    blocks = [("GenParams", gen), ("SupParams", sup), ("FxdParams", fx), ("DataPts", dat), ("Cksum", ck)]
    entries = b"".join(c(nm) + struct.pack("<HI", 200, len(b)) for nm, b in blocks)
    size = len(c("Map")) + 8 + len(entries)
    mp = c("Map") + struct.pack("<HIH", 200, size, len(blocks) + 1) + entries
    with open(path, "wb") as f:
        f.write(mp + b"".join(b for _, b in blocks))
    step = 0.01 * 0.299792458 / 1.468 * 1000
    data = ((raw.max() - raw.astype("f8")) * 1000 / 1e6)[None]
    return path, [Want(("time", "distance"), data, dict(time=np.array([np.datetime64(int(T0S), "s")]).astype("M8[ns]"), distance=np.arange(n) * step), "SR4731", "200", dict(distance="m"), dict(instrument_id="maker-model-sn1", wavelength_nm=1550.0))]


def tdms(d, dtype="i2", chunk=2, nt=NT, segments=1, interleaved=False):
    path = Path(d) / f"silixa_{dtype}_{chunk}_{nt}_{segments}_{interleaved}.tdms"
    data = values((nt, ND), dtype)
    s = lambda x: struct.pack("<i", len(x)) + x
    props = [("SamplingFrequency[Hz]", 4.0), ("GPSTimeStamp", T0), ("Fibre Length Multiplier", 1.0), ("MeasureLength[m]", 2.0 * ND), ("StartPosition[m]", 4.0), ("SpatialResolution[m]", 2.0),
             ("SystemInfomation.Devices0.SerialNum", "SER")]
    pb = b""
    for k, v in props:
        pb += s(k.encode())
        if isinstance(v, float):
            pb += struct.pack("<i", 0x0A) + struct.pack("<d", v)
        elif isinstance(v, str):
            pb += struct.pack("<i", 0x20) + s(v.encode())
        else:
            secs = int(T0S) + 2082844800
            pb += struct.pack("<i", 0x44) + struct.pack("<Qq", 0, secs)
    meta = struct.pack("<i", ND + 2) + s(b"/") + struct.pack("<I", 0xFFFFFFFF) + struct.pack("<i", len(props)) + pb
    meta += s(b"/'Measurement'") + struct.pack("<Ii", 0xFFFFFFFF, 0)
    code = {"i2": 2, "f4": 9}[dtype]
    for ch in range(ND):
        meta += s(f"/'Measurement'/'{ch}'".encode()) + struct.pack("<I", 20) + struct.pack("<i", code) + struct.pack("<i", 1) + struct.pack("<Q", chunk) + struct.pack("<i", 0)
    bounds = np.linspace(0, nt, segments + 1).astype(int)
    out = b""
    for n, (a, b) in enumerate(zip(bounds[:-1], bounds[1:])):
        seg = data[a:b]
        raw = b""
        for i in range(0, len(seg), chunk):
            raw += np.ascontiguousarray(seg[i:i + chunk] if interleaved else seg[i:i + chunk].T).tobytes()
        m = meta if n == 0 else b""
        toc = 0b1110 if n == 0 else 0b1000
        out += struct.pack("<4siiQQ", b"TDSm", toc | 0b100000 * interleaved, 4713, len(m) + len(raw), len(m)) + m + raw
    Path(path).write_bytes(out)
    return path, [Want(("time", "distance"), data, dict(time=times(nt), distance=dist(start=4.0)), "TDMS", "4713", dict(distance="m", time="s"), dict(instrument_id="SER", data_type="strain_rate"))]


XML = """<?xml version='1.0' encoding='utf-8'?>
<Metadata><FileFormat>RAW</FileFormat><DateTime>2020-01-02T03:04:05Z</DateTime><DasInterrogatorSerial><Interrogator_1>IU1</Interrogator_1></DasInterrogatorSerial>
<GaugeLengthM>1</GaugeLengthM><PulseWidthNs>100</PulseWidthNs><DataType>{dtype}</DataType><NumberOfLasers>1</NumberOfLasers><ITUChannels><Laser_1>15</Laser_1><Laser_2>10</Laser_2></ITUChannels>
<OriginalTemporalSamplingRate>4</OriginalTemporalSamplingRate><OutputTemporalSamplingRate>4</OutputTemporalSamplingRate><OriginalSpatialSamplingInterval>2</OriginalSpatialSamplingInterval><Units>m</Units>
<Zones><Zone><StartChannel>3</StartChannel><EndChannel>5</EndChannel><Stride>1</Stride><NumberOfChannels>3</NumberOfChannels></Zone></Zones>
<NumberOfChannels>3</NumberOfChannels><NumberOfFrames>5</NumberOfFrames><UseRelativeStrain>False</UseRelativeStrain><TransposedData>False</TransposedData></Metadata>"""


def xml_binary(d, dtype="uint16", files=2):
    path = Path(d) / f"xmlbin_{dtype}_{files}"
    path.mkdir()
    (path / "metadata.xml").write_text(XML.format(dtype=dtype))
    wants = []
    for i in range(files):
        t0 = T0 + np.timedelta64(2 * i, "s")
        data = (values((NT, ND)) + i * 50).astype(dtype)
        stamp = str(t0.astype("M8[s]")).replace("-", "").replace(":", "")
        data.tofile(path / f"DAS_{stamp}_000000Z.raw")
        wants.append(Want(("time", "distance"), data, dict(time=times(t0=t0), distance=dist(start=4.0)), "XMLBinary", "1", dict(distance="m", time="s"), dict(gauge_length=1.0, instrument_id="IU1")))
    return path, wants


def segy(d, version="1.0"):
    import segyio

    path = Path(d) / f"seg_{version}.segy"
    data = values((NT, ND))
    spec = segyio.spec()
    spec.format = 1
    spec.samples = np.arange(NT) * 250.0
    spec.ilines = range(ND)
    spec.xlines = [1]
    major, minor = map(int, version.split("."))
    with segyio.create(str(path), spec) as f:
        f.bin.update(tsort=segyio.TraceSortingFormat.INLINE_SORTING)
        f.bin.update({segyio.BinField.Samples: NT, segyio.BinField.Interval: 10000, segyio.BinField.SEGYRevision: major, segyio.BinField.SEGYRevisionMinor: minor})
        tf = segyio.TraceField
        for i in range(ND):
            f.header[i] = {tf.YearDataRecorded: 2020, tf.DayOfYear: 2, tf.HourOfDay: 3, tf.MinuteOfHour: 4, tf.SecondOfMinute: 5, tf.TRACE_SAMPLE_INTERVAL: 10000, tf.TRACE_SAMPLE_COUNT: NT,
                           segyio.su.iline: i, segyio.su.xline: 1}
            f.trace[i] = data[:, i]
    return path, [Want(("time", "channel"), data, dict(time=times(dt=0.01), channel=np.arange(ND)), "segy", version)]


# ---------------------------------------------------------------- formats the library writes itself
def _patches(n=1):
    from mc import iopatch as io

    out = []
    for i in range(n):
        p = io.make(time="even", attrs="some", nt=NT, nd=ND)
        p = p.update_coords(time_min=T0 + np.timedelta64(20 * i, "s")) if i else p
        out.append(p)
    return out


def dasdae(d, n=1, indexed=False):
    import dascore as dc

    path = Path(d) / f"dasdae_{n}_{indexed}.h5"
    pas = _patches(n)
    dc.write(dc.spool(pas), path, "DASDAE", **({"index": True} if indexed else {}))
    return path, [Want(p.dims, p.data, {k: p.get_array(k) for k in p.coords.coord_map}, "DASDAE", "1", dict(distance="m", time="s"), dict(tag="t1", station="S")) for p in pas]


def pickle_(d, n=1):
    import dascore as dc

    path = Path(d) / f"pick_{n}.pkl"
    pas = _patches(n)
    dc.write(dc.spool(pas) if n > 1 else pas[0], path, "PICKLE")
    return path, [Want(p.dims, p.data, {k: p.get_array(k) for k in p.coords.coord_map}, "PICKLE", "", dict(distance="m", time="s"), dict(tag="t1", station="S")) for p in pas]


LAYOUTS = [
    (terra15, dict(version="4")), (terra15, dict(version="5")), (terra15, dict(version="6")), (terra15, dict(clock="posix_time")), (terra15, dict(incomplete=2)), (terra15, dict(version="4", incomplete=1, clock="posix_time")), (terra15, dict(dt=0.001)),
    (dashdf5, {}), (dashdf5, dict(order="time")), (dashdf5, dict(uneven=True)),
    (gdr, {}), (gdr, dict(order="distance", dtype="i4")),
    (h5simple, {}), (h5simple, dict(data_name="raw", time_name="timestamps", other="channels")), (h5simple, dict(other="")), (h5simple, dict(order="distance")), (h5simple, dict(dims="time,distance")), (h5simple, dict(dims="distance,time", order="distance")),
    (optodas, {}), (optodas, dict(version="9", order="distance")), (optodas, dict(version="10", first=4)), (optodas, dict(version="11", dtype="i2")),
    (silixah5, {}), (silixah5, dict(clock="cpu", dtype="f4")),
    (neubrex_das, {}), (neubrex_das, dict(clock="cpu")), (neubrex_rfs, {}),
    (prodml, {}), (prodml, dict(version="2.1")), (prodml, dict(order="distance")), (prodml, dict(fbe=2)), (prodml, dict(version="2.1", fbe=1, raws=0, order="distance")), (prodml, dict(raws=2)), (prodml, dict(badend=True)),
    (ap_sensing, {}), (ap_sensing, dict(dtype="i4")),
    (febus_a1, {}), (febus_a1, dict(overlap=1)), (febus_a1, dict(overlap=2, blockrate=False)), (febus_a1, dict(version="")), (febus_a1, dict(zones=2, nblocks=2)), (febus_a1, dict(nblocks=2, overlap=2)),
    (febus_mtx, {}), (febus_bsl, {}), (febus_t1, {}), (febus_t1, dict(uneven=True)), (febus_g1_csv, {}),
    (dasvader, {}), (dasvader, dict(data_name="strainrate", attrib=False)), (dasvader, dict(ref=3)),
    (sentek, {}), (sentek, dict(rate=0)), (sintela, {}), (sintela, dict(packets=1, kind=3)), (sintela, dict(packets=3, kind=0)),
    (sr4731, {}), (tdms, {}), (tdms, dict(dtype="f4", chunk=8)), (tdms, dict(chunk=5)), (tdms, dict(nt=6, chunk=2)), (tdms, dict(nt=7, chunk=3)), (tdms, dict(interleaved=True)),
    (xml_binary, {}), (xml_binary, dict(dtype="int32", files=1)),
    (segy, {}), (segy, dict(version="2.1")), (segy, dict(version="0.0")),
    (dasdae, {}), (dasdae, dict(n=2)), (dasdae, dict(n=2, indexed=True)), (pickle_, {}), (pickle_, dict(n=2)),
]


def label(i):
    fn, kw = LAYOUTS[i]
    return fn.__name__.strip("_") + "".join(f" {k}={v}" for k, v in kw.items())


def build(i, d):
    fn, kw = LAYOUTS[i]
    return fn(d, **kw)
