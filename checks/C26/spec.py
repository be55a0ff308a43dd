ORACLES = [dict(src=["oracle.c", "{REPO}/libmy/my_fileset.c"], secs=6, maxlen=600)]
