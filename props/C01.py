import codec_common
def setup(ctx):
    codec_common.setup(ctx, [1])
