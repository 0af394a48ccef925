"""Stand-in evolution step used by the cluster runs."""


class ClusterStep:
    DEFAULT_KWARGS = {}

    def __init__(self, **kwargs):
        pass

    def __call__(self, binary):
        binary.time += 1.0e6
        binary.event = "END"
