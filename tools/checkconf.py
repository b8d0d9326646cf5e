# per-property run settings: race detector, number of processes, time limits
CONF = {
    "E06": {"race": True},
    "H01": {"race": True},
    "P01": {"race": True},
    "W01": {"race": True},
    "W02": {"race": True},
    "W03": {"race": True},
    "W04": {"race": True},
    "X01": {"race": True},
    "X03": {"race": True},
    "L01": {"race": True},
    "K01": {"race": True},
    "M01": {"race": True},
    "M02": {"race": True},
    "U01": {"race": True},
    "U02": {"race": True},
    "U03": {"race": True},
    "U04": {"race": True},
    "T02": {"race": True},
    # run failing tests inside of a test: with failfast the next ones would not run
    "T01": {"failfast": False},
    "T03": {"failfast": False},
}
