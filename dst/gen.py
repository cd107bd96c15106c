"""Small generator helpers shared by the worlds."""


def wchoice(rng, pairs):
    tot = sum(w for w, _ in pairs)
    x = rng.random() * tot
    for w, v in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][1]


def text(rng, n, alphabet):
    return ''.join(rng.choice(alphabet) for _ in range(n))


def size(rng, small=8, mid=60, big=0):
    k = rng.random()
    if k < 0.1:
        return 0
    if k < 0.6:
        return rng.randint(1, small)
    if big and k > 0.97:
        return rng.randint(mid, big)
    return rng.randint(1, mid)


def lat(s):
    """JSON string (code points < 256) -> bytes"""
    return s.encode('latin1')


TZS = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata',
       'Australia/Lord_Howe', 'Pacific/Kiritimati', 'America/St_Johns',
       'Europe/Berlin', 'Pacific/Apia', 'Asia/Tokyo']
