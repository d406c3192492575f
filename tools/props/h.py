PS = []
