import numpy as np


def neighbor_average_waveform(waveforms, neighbors, lwt):
    sum_ = np.array(waveforms, dtype=np.float64) * lwt
    n = np.full(waveforms.shape[0], lwt, dtype=np.float64)
    for p, q in np.asarray(neighbors):
        sum_[p] += waveforms[q]
        n[p] += 1
    with np.errstate(all='ignore'):
        return np.nan_to_num(sum_ / n[:, None])


def _per_pixel(waveforms, peak_index):
    return np.broadcast_to(peak_index, waveforms.shape[:-1])


def sum_samples_around_peak(waveforms, peak_index, width, shift):
    peak = _per_pixel(waveforms, peak_index)
    out = np.zeros(waveforms.shape[0])
    for p in range(waveforms.shape[0]):
        start = peak[p] - shift
        for i in range(start, start + width):
            if 0 <= i < waveforms.shape[1]:
                out[p] += waveforms[p, i]
    return out


def extract_pulse_time_around_peak(waveforms, peak_index, width, shift):
    peak = _per_pixel(waveforms, peak_index)
    out = np.zeros(waveforms.shape[0])
    for p in range(waveforms.shape[0]):
        start = peak[p] - shift
        num = den = 0.
        for i in range(start, start + width):
            if 0 <= i < waveforms.shape[1] and waveforms[p, i] > 0:
                num += float(waveforms[p, i]) * i
                den += float(waveforms[p, i])
        out[p] = num / den if den > 0 else peak[p]
    return out


class LocalPeakWindowSum:
    def __init__(self, window_width=7, window_shift=3):
        self.window_width, self.window_shift = window_width, window_shift

    def __call__(self, waveforms):
        peak = np.asarray(waveforms).argmax(axis=-1).astype(np.int64)
        return (sum_samples_around_peak(waveforms, peak, self.window_width, self.window_shift),
                extract_pulse_time_around_peak(waveforms, peak, self.window_width, self.window_shift))


class NeighborPeakWindowSum:
    def __init__(self, window_width=7, window_shift=3, lwt=0):
        self.window_width, self.window_shift, self.lwt = window_width, window_shift, lwt
        self.neighbors = None

    def __call__(self, waveforms):
        avg = neighbor_average_waveform(waveforms, self.neighbors, self.lwt)
        peak = avg.argmax(axis=-1).astype(np.int64)
        return (sum_samples_around_peak(waveforms, peak, self.window_width, self.window_shift),
                extract_pulse_time_around_peak(waveforms, peak, self.window_width, self.window_shift))
