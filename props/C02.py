import codec_common
def setup(ctx):
    codec_common.setup(ctx, [2, 3, 4, 5, 6])
