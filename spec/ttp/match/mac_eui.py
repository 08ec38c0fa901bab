from re import sub

def mac_eui(data):
    mac = str(data)
    mac = sub('[.:-]', '', mac).lower()
    if mac.isalnum():
        if not len(mac) == 12:
            mac += '0' * (12 - len(mac))
    else:
        return (data, None)
    mac = ':'.join([mac[i:i + 2] for i, j in enumerate(mac) if not i % 2])
    return (mac, None)
