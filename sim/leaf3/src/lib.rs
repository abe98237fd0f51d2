simcore::leaf!(plonky::Vesta, plonky::Pallas);
