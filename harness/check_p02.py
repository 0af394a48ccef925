import check_p01


def run(c):
    check_p01.run(c, "p02", 1500 if c.thorough else 88)
