from re import escape, search

def extract_commands(data, *commands):
    ret = ''
    hostname = _ttp_['variable']['gethostname'](data, 'input find_command function')
    if hostname:
        for command in commands:
            regex = '{}[#>] *{} *\\n([\\S\\s]+?)(?={}[#>]|$)'.format(escape(hostname), escape(command), escape(hostname))
            match = search(regex, data)
            if match:
                ret += '\n{}\n'.format(match.group())
        if ret:
            return (ret, None)
    return (data, None)
