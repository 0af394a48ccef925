def run(c):
    c.model_check("MatchMC", "MatchMC.cfg", workers=4)
    _, path = c.generate("MatchGen", "MatchGenBig.cfg" if c.thorough else "MatchGen.cfg")
    t = c.drive("drv_match.py", [path], nproc=8)
    c.validate("MatchTrace", t, chunks=8)
    c.assumptions += ["the library of tracks is a closed-form stand-in for the distributed grids",
                      "how often the real optimiser succeeds between library points is not judged, only what it is allowed to return",
                      "the attempts are bound to the code by replacing the numerical minimiser with scripted answers"]
