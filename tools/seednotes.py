ALSO = {}
MISSED = {}
MISSED.update({
 'wide-at-line-end': 'at first missed: half a full-width character was enough for the reference terminal',
 'lines-reappear-when-taller': 'at first missed: C02 got the reach of a real screen',
 'busy-server-drops-message': 'at first missed: C33 compares what the library sends to an idle and to a busy server',
})
