def item(data, item_index):
    item_index = int(item_index)
    if 0 <= item_index and item_index <= len(data) - 1:
        return (data[item_index], None)
    elif 0 <= item_index and item_index >= len(data) - 1:
        return (data[-1], None)
    elif 0 >= item_index and abs(item_index) <= len(data) - 1:
        return (data[item_index], None)
    elif 0 >= item_index and abs(item_index) >= len(data):
        return (data[0], None)
