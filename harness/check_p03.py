import check_p01


def run(c):
    check_p01.run(c, "p03", 800 if c.thorough else 56)
