# per-property remarks: kind of text and an addition
for _p, _t in {
    'C12': 'The configured database is "ab"; PostgreSQL\'s choice of database is computed by an independent reference in the harness.',
    'C13': 'Peers are in-memory connections whose every read and write is an atomic step.',
    'C14': '', 'C15': 'Time passes only when nothing else can happen, so grace periods are waited for in full.', 'C16': '', 'C17': '',
    'C18': 'The number of registered sessions is read from the server\'s field of that name.', 'C19': 'Configurations come from a stand-in store; HRun uses the real distributor.',
    'C20': '', 'C21': '', 'C22': '', 'C23': '', 'C24': '', 'C29': '',
    'C25': 'Command lines are parsed by the real kingpin; the file system, TOML decoding and fsnotify are stand-ins.',
    'C26': 'The file system, TOML decoding and fsnotify (queue, one delivering goroutine) are stand-ins; a write is atomic; a write between the first reading and the start of watching is outside.',
    'C28': 'Data races are found by happens-before tracking on every explored schedule; other failures of those schedules belong to other properties.',
}.items():
    NOTES[_p] = ('sched', _t)
